From 29a94303e4dc4d6c2cb485e3ae00ca37e5045ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 01/81] fix: give the code generator the error offset it writes
 to

Every semantic error (break outside of a loop, misplaced tuples, invalid
assignment targets, ...) wrote through an uninitialised pointer.
---
 src/lib/compiler/codegen.c    |  3 +--
 src/lib/compiler/codegenctx.c | 13 ++++++++++---
 src/lib/compiler/codegenctx.h |  2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/lib/compiler/codegen.c b/src/lib/compiler/codegen.c
index 586650c..2b04de1 100644
--- a/src/lib/compiler/codegen.c
+++ b/src/lib/compiler/codegen.c
@@ -768,10 +768,9 @@ Executable *codegen(AST *ast, BPAlloc *alloc, Error *error, int *error_offset)
 
 	jmp_buf env;
 
-	CodegenContext *ctx = CodegenContext_New(error, alloc);
+	CodegenContext *ctx = CodegenContext_New(error, error_offset, alloc);
 	if(ctx == NULL) {
 		*error_offset = 0;
-		Error_Report(error, ErrorType_INTERNAL, "No memory");
 		return NULL;
 	}
 
diff --git a/src/lib/compiler/codegenctx.c b/src/lib/compiler/codegenctx.c
index dfb3a03..5a5e360 100644
--- a/src/lib/compiler/codegenctx.c
+++ b/src/lib/compiler/codegenctx.c
@@ -74,14 +74,14 @@ void CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env)
     ctx->env_set = true;
 }
 
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc)
 {
     bool own_alloc;
     if(alloc == NULL) {
         alloc = BPAlloc_Init(-1);
         if(alloc == NULL) {
             Error_Report(error, ErrorType_INTERNAL, "No memory");
-            return false;
+            return NULL;
         }
         own_alloc = true;
     } else {
@@ -98,12 +98,19 @@ CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc)
 
     ExeBuilder *builder = ExeBuilder_New(alloc);
     if(builder == NULL) {
-        if(ctx->own_alloc)
+        if(own_alloc)
             BPAlloc_Free(alloc);
+        Error_Report(error, ErrorType_INTERNAL, "No memory");
         return NULL;
     }
 
+    // Failures that don't have a more precise
+    // location are reported at the start of
+    // the source.
+    *error_offset = 0;
+
     ctx->error = error;
+    ctx->error_offset = error_offset;
     ctx->alloc = alloc;
     ctx->builder = builder;
     ctx->env_set = false;
diff --git a/src/lib/compiler/codegenctx.h b/src/lib/compiler/codegenctx.h
index bfd5c37..3d7b185 100644
--- a/src/lib/compiler/codegenctx.h
+++ b/src/lib/compiler/codegenctx.h
@@ -4,7 +4,7 @@
 #include "../executable.h"
 
 typedef struct CodegenContext CodegenContext;
-CodegenContext *CodegenContext_New(Error *error, BPAlloc *alloc);
+CodegenContext *CodegenContext_New(Error *error, int *error_offset, BPAlloc *alloc);
 void            CodegenContext_EmitInstr(CodegenContext *ctx, Opcode opcode, Operand *opv, int opc, int off, int len);
 void            CodegenContext_SetJumpDest(CodegenContext *ctx, jmp_buf *env);
 void            CodegenContext_Free(CodegenContext *ctx);
-- 
2.43.0


From 4f1ec5e4a24a5ec0eb53a727e7b51fb3dfa07098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 02/81] fix: don't walk past the end of the source inside of a
 map literal

A source that ends where a map item was expected ("x = {a: 1,") made the
parser dereference a null token.
---
 src/lib/compiler/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 274d006..a429cb5 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1001,6 +1001,13 @@ static Node *parse_map_primary_expression(Context *ctx)
 
 			bool item_is_func_decl = false;
 
+			if(done(ctx))
+			{
+				*ctx->error_offset = ctx->token->offset;
+				Error_Report(ctx->error, ErrorType_SYNTAX, "Source ended inside a map literal");
+				return NULL;
+			}
+
 			if (current(ctx) == TKWFUN) 
 			{
 				FuncDeclNode *func = parse_function_definition(ctx);
-- 
2.43.0


From 966566af23d3c7ea0979911b2ad99270878cbc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 03/81] fix: copy the whole source text and terminate it

strncpy stopped at the first NUL byte of the source and left its body
unterminated, which the tokenizer relies on (it reads one character past
an unterminated string literal).
---
 src/lib/utils/source.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils/source.c b/src/lib/utils/source.c
index c4f3de1..e3c3d95 100644
--- a/src/lib/utils/source.c
+++ b/src/lib/utils/source.c
@@ -213,6 +213,7 @@ Source *Source_FromString(const char *name, const char *body, int size, Error *e
 	else
 		s->name = NULL;
 	
-	strncpy(s->body, body, size);
+	memcpy(s->body, body, size);
+	s->body[size] = '\0';
 	return s;
 }
\ No newline at end of file
-- 
2.43.0


From 903c652d752f896c16c0a4af544e802de88923f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:15 +0000
Subject: [PATCH 04/81] fix: split runs of operator characters into the longest
 operators

"a==-1", "a<=-1" and the like were tokenized one character at a time
and rejected.
---
 src/lib/compiler/parse.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index a429cb5..984336d 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -345,13 +345,18 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 				{   TARW, 2, "->" },
 			};
 
+			// A run of operator characters may hold more than
+			// one operator (such as "==-"): take the longest
+			// one the run starts with.
 			_Bool found = 0;
-			for(unsigned int i = 0; i < sizeof(optable)/sizeof(*optable); i += 1)
-				if(optable[i].size == tok->length && !strncmp(optable[i].text, str + tok->offset, tok->length))
+			int run_length = tok->length;
+			for(unsigned int j = 0; j < sizeof(optable)/sizeof(*optable); j += 1)
+				if(optable[j].size <= run_length && (!found || optable[j].size > tok->length)
+					&& !strncmp(optable[j].text, str + tok->offset, optable[j].size))
 				{
 					found = 1;
-					tok->kind = optable[i].kind;
-					break;
+					tok->kind = optable[j].kind;
+					tok->length = optable[j].size;
 				}
 
 			if(found == 0)
@@ -359,8 +364,9 @@ static Token *tokenize(Source *src, BPAlloc *alloc, Error *error, int *error_off
 				// Not a known operator.
 				tok->kind = str[tok->offset];
 				tok->length = 1;
-				i = tok->offset + 1;
 			}
+
+			i = tok->offset + tok->length;
 		}
 		else	
 		{
-- 
2.43.0


From 2fc40b86d8d6739d549e6859a3cb543459885ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:45 +0000
Subject: [PATCH 05/81] fix: abort the execution on integer overflow and modulo
 by zero

As documented in docs/Language.md. These were undefined behaviour: the
results wrapped around, and "1 % 0" killed the process with SIGFPE.
---
 src/lib/run.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 6277149..5c9486e 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -368,7 +368,30 @@ static Object *do_math_op(Object *lop, Object *rop, Opcode opcode, Heap *heap, E
 			// int + int
 			long long int raw_rop = Object_GetInt(rop);
 			long long int raw_res = 0;
-			APPLY(raw_lop, raw_rop, raw_res, id)
+			_Bool overflow = 0;
+			switch(opcode)
+			{
+				case OPCODE_ADD: overflow = __builtin_add_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_SUB: overflow = __builtin_sub_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_MUL: overflow = __builtin_mul_overflow(raw_lop, raw_rop, &raw_res); break;
+				case OPCODE_DIV:
+				if(raw_rop == 0)
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+					return NULL;
+				}
+				if(raw_rop == -1)
+					overflow = __builtin_sub_overflow(0LL, raw_lop, &raw_res);
+				else
+					raw_res = raw_lop / raw_rop;
+				break;
+				default: UNREACHABLE; break;
+			}
+			if(overflow)
+			{
+				Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+				return NULL;
+			}
 			res = Object_FromInt(raw_res, heap, error);
 		}
 		else if(Object_IsFloat(rop))
@@ -543,7 +566,12 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			if(Object_IsInt(top))
 			{
 				long long n = Object_GetInt(top);
-				top = Object_FromInt(-n, heap, error);
+				if(__builtin_sub_overflow(0LL, n, &n))
+				{
+					Error_Report(error, ErrorType_RUNTIME, "Integer overflow");
+					return 0;
+				}
+				top = Object_FromInt(n, heap, error);
 			}
 			else if(Object_IsFloat(top))
 			{
@@ -641,7 +669,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			long long int x, y, z;
 			y = Object_GetInt(objs[0]);
 			x = Object_GetInt(objs[1]);
-			z = x % y;
+			if (y == 0) {
+				Error_Report(error, ErrorType_RUNTIME, "Division by zero");
+				return 0;
+			}
+			z = (y == -1) ? 0 : x % y;
 
 			Object *res = Object_FromInt(z, heap, error);
 			if(res == NULL)
-- 
2.43.0


From 1d7f930c44a2edcfbd13dc60fd9aead02c03df1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 06/81] fix: type checks against list patterns longer than the
 value

istypeof([int], []) left an error set without failing, which made an
unrelated later operation fail. The text describing a mistyped argument
could also be left unterminated when longer than its buffer.
---
 src/lib/builtins/basic.c |  2 ++
 src/lib/objects/o_list.c |  4 ++++
 src/lib/run.c            | 25 ++++++++++++++++---------
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 789947f..d8e08dc 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -272,6 +272,8 @@ static int bin_istypeof(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	
 	Heap *heap = Runtime_GetHeap(runtime);
 	bool yes = Object_IsTypeOf(argv[0], argv[1], heap, error);
+	if (error->occurred)
+		return -1;
 	Object *o_yes = Object_FromBool(yes, heap, error);
 	if (o_yes == NULL)
 		return -1;
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 84af9c2..ddc5538 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -76,6 +76,10 @@ istypeof(Object *self,
     if (!Object_IsList(other))
         return false;
 
+    // Every item the pattern mentions must be there.
+    if (((ListObject*) other)->count < list->count)
+        return false;
+
     for (int i = 0; i < list->count; i++) {
     	
     	Object *key = Object_FromInt(i, heap, error);
diff --git a/src/lib/run.c b/src/lib/run.c
index 5c9486e..e88e2e7 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -768,15 +768,22 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 				return 0;
 
 			if (!Object_IsTypeOf(typ, arg, heap, error)) {
-				char provided[512];
-				char allowed[512];
-				FILE *provided_fp = fmemopen(provided, sizeof(provided), "wb");
-				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed), "wb");
-				// TODO: Check for errors from [fmemopen]
-				Object_Print(typ, allowed_fp);
-				Object_Print(arg, provided_fp);
-				fclose(allowed_fp);
-				fclose(provided_fp);
+				if (error->occurred)
+					return 0; // Failed to determine the type.
+				// The streams leave the last byte alone, so that
+				// the strings are terminated even if truncated.
+				char provided[512] = {0};
+				char allowed[512] = {0};
+				FILE *provided_fp = fmemopen(provided, sizeof(provided)-1, "wb");
+				FILE  *allowed_fp = fmemopen(allowed, sizeof(allowed)-1, "wb");
+				if (allowed_fp != NULL) {
+					Object_Print(typ, allowed_fp);
+					fclose(allowed_fp);
+				}
+				if (provided_fp != NULL) {
+					Object_Print(arg, provided_fp);
+					fclose(provided_fp);
+				}
 				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
 							 arg_index+1, arg_name, allowed, provided);
 				return 0;
-- 
2.43.0


From 6a41f87d73b1e639bca3e240a06024490ee6fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 07/81] fix: report the real size of a list's backing array to
 the collector

---
 src/lib/objects/o_list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index ddc5538..14caa1d 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -202,7 +202,7 @@ static void walkexts(Object *self, void (*callback)(void **referer, unsigned int
 {
 	ListObject *list = (ListObject*) self;
 	
-	callback((void**) &list->vals, sizeof(Object) * list->capacity, userp);
+	callback((void**) &list->vals, sizeof(Object*) * list->capacity, userp);
 }
 
 static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
-- 
2.43.0


From 580418f3428563291f06d18db5b1de038ca9943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:44 +0000
Subject: [PATCH 08/81] fix: rehash maps with the probe sequence lookups use

---
 src/lib/objects/o_map.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index a57f97c..ad23e39 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -296,12 +296,12 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 		// This won't trigger an error because the key
 		// surely has a hash method since we already
 		// hashed it once.
-		int hash = Object_Hash(keys[i]);
+		unsigned int hash = Object_Hash(keys[i]);
 
-		int mask = new_mapper_size - 1;
-		int pert = hash;
+		unsigned int mask = new_mapper_size - 1;
+		unsigned int pert = hash;
 			
-		int j = hash & mask;
+		unsigned int j = hash & mask;
 
 		while(1)
 		{
-- 
2.43.0


From f6dfc46339f287b464e968a49b609f67f95737f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 09/81] fix: don't truncate 64 bit indices to 32 bits

---
 src/lib/objects/o_buffer.c | 4 ++--
 src/lib/objects/o_list.c   | 4 ++--
 src/lib/objects/o_string.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index 63744f8..b9ed1d0 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -191,7 +191,7 @@ static Object *buffer_select(Object *self, Object *key, Heap *heap, Error *error
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	BufferObject *buffer = (BufferObject*) self;
 
@@ -230,7 +230,7 @@ static _Bool buffer_insert(Object *self, Object *key, Object *val, Heap *heap, E
 		Error_Report(error, ErrorType_RUNTIME, "Non integer value");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 	long long int qword = Object_GetInt(val);
 	if(idx < 0 || (size_t) idx >= buffer->length)
 	{
diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 14caa1d..acc2900 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -220,7 +220,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	ListObject *list = (ListObject*) self;
 
@@ -274,7 +274,7 @@ static _Bool insert(Object *self, Object *key, Object *val, Heap *heap, Error *e
 		return NULL;
 	}
 
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	if(idx < 0 || idx > list->count)
 	{
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index d774c01..8db2b92 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -65,7 +65,7 @@ static TypeObject t_string = {
 	.walkexts = walkexts,
 };
 
-static int char_index_to_offset(StringObject *str, int idx)
+static int char_index_to_offset(StringObject *str, long long int idx)
 {
 	if(str->count == str->bytes)
 		return idx;
@@ -99,7 +99,7 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 		Error_Report(error, ErrorType_RUNTIME, "Non integer key");
 		return NULL;
 	}
-	int idx = Object_GetInt(key);
+	long long int idx = Object_GetInt(key);
 
 	StringObject *str = (StringObject*) self;
 
-- 
2.43.0


From 096a6d5d3976c8b275df271818c052087430974b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 10/81] fix: don't crash when a map is indexed by an unhashable
 object

---
 src/lib/objects/objects.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/objects.c b/src/lib/objects/objects.c
index 53bb360..11192b7 100644
--- a/src/lib/objects/objects.c
+++ b/src/lib/objects/objects.c
@@ -109,7 +109,14 @@ int Object_Hash(Object *obj)
 {
 	ASSERT(obj != NULL);
 	const TypeObject *type = Object_GetType(obj);
-	ASSERT(type != NULL && type->hash != NULL);
+	ASSERT(type != NULL);
+
+	// Objects without a hash method can't be copied
+	// or compared either, so using them as keys fails
+	// later on, with an error.
+	if(type->hash == NULL)
+		return 0;
+
 	return type->hash(obj);
 }
 
-- 
2.43.0


From 2bb609b1b3b281557acf361d8b06a2163c78f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:13 +0000
Subject: [PATCH 11/81] fix: give 0.0 and -0.0 the same hash

---
 src/lib/objects/o_float.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/objects/o_float.c b/src/lib/objects/o_float.c
index 567b2a2..d79c448 100644
--- a/src/lib/objects/o_float.c
+++ b/src/lib/objects/o_float.c
@@ -61,7 +61,13 @@ static int hash(Object *self)
 
 	FloatObject *iobj = (FloatObject*) self;
 
-	return hashbytes((unsigned char*) &iobj->val, sizeof(iobj->val));
+	// Equal values must have the same hash, but the
+	// two zeros have different representations.
+	double val = iobj->val;
+	if(val == 0.0)
+		val = 0.0;
+
+	return hashbytes((unsigned char*) &val, sizeof(val));
 }
 
 static Object *copy(Object *self, Heap *heap, Error *err)
-- 
2.43.0


From 3d3fc449154bd8966cd44381b6609497b4d0cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:17 +0000
Subject: [PATCH 12/81] fix: reject malformed UTF-8 sequences

---
 src/lib/utils/utf8.c | 46 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 88fdc2d..781460f 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -78,6 +78,10 @@ int utf8_sequence_from_utf32_codepoint(char *utf8_data, int nbytes, uint32_t utf
         return 2;
     }
 
+    if(utf32_code >= 0xd800 && utf32_code <= 0xdfff)
+        // Surrogates aren't valid UTF-32.
+        return -1;
+
     if(utf32_code < 65536)
     {
         if(nbytes < 3)
@@ -105,6 +109,12 @@ int utf8_sequence_from_utf32_codepoint(char *utf8_data, int nbytes, uint32_t utf
     return -1;
 }
 
+// Returns true iff [byte] is in the form 10xxxxxx.
+static _Bool is_auxiliary(char byte)
+{
+    return (byte & 0xc0) == 0x80;
+}
+
 /* SYMBOL
 **   utf8_sequence_to_utf32_codepoint
 **
@@ -151,12 +161,19 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
     {
         // May be UTF-8.
             
+        if((unsigned char) utf8_data[0] >= 0xF8)
+            // 11111xxx is never valid.
+            return -1;
+
         if((unsigned char) utf8_data[0] >= 0xF0)
             {
                 // 4 bytes.
                 // 11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
 
-                if(nbytes < 4)
+                if(nbytes < 4
+                    || !is_auxiliary(utf8_data[1])
+                    || !is_auxiliary(utf8_data[2])
+                    || !is_auxiliary(utf8_data[3]))
                     return -1;
                     
                 uint32_t temp 
@@ -165,7 +182,8 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                     | (((uint32_t) utf8_data[2] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[3] & 0x3f));
 
-                if(temp > 0x10ffff)
+                // Out of range or overlong encoding.
+                if(temp > 0x10ffff || temp < 65536)
                     return -1;
 
                 *utf32_code = temp;
@@ -177,7 +195,9 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 // 3 bytes.
                 // 1110xxxx 10xxxxxx 10xxxxxx
 
-                if(nbytes < 3)
+                if(nbytes < 3
+                    || !is_auxiliary(utf8_data[1])
+                    || !is_auxiliary(utf8_data[2]))
                     return -1;
 
                 uint32_t temp
@@ -185,7 +205,8 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                     | (((uint32_t) utf8_data[1] & 0x3f) <<  6)
                     | (((uint32_t) utf8_data[2] & 0x3f));
                 
-                if(temp > 0x10ffff)
+                // Overlong encoding or surrogate.
+                if(temp < 2048 || (temp >= 0xd800 && temp <= 0xdfff))
                     return -1;
 
                 *utf32_code = temp;
@@ -197,21 +218,24 @@ int utf8_sequence_to_utf32_codepoint(const char *utf8_data, int nbytes, uint32_t
                 // 2 bytes.
                 // 110xxxxx 10xxxxxx
 
-                if(nbytes < 2)
+                if(nbytes < 2 || !is_auxiliary(utf8_data[1]))
                     return -1;
 
-                *utf32_code 
+                uint32_t temp
                     = (((uint32_t) utf8_data[0] & 0x1f) << 6)
                     | (((uint32_t) utf8_data[1] & 0x3f));
-                    
-                ASSERT(*utf32_code <= 0x10ffff);
+
+                // Overlong encoding.
+                if(temp < 128)
+                    return -1;
+
+                *utf32_code = temp;
                 return 2;
             }
             
-        // 1 byte
         // 10xxxxxx
-        *utf32_code = (uint32_t) utf8_data[0] & 0x3f;
-        return 1;
+        // An auxiliary byte can't start a sequence.
+        return -1;
     }
 
     // It's ASCII
-- 
2.43.0


From 97f36aecf93e8bbf7c613f1938e2ca3066a9d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 13/81] fix: don't let utf8_next read past the end of the
 string

---
 src/lib/utils/utf8.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/utf8.c b/src/lib/utils/utf8.c
index 781460f..42fd55b 100644
--- a/src/lib/utils/utf8.c
+++ b/src/lib/utils/utf8.c
@@ -454,13 +454,13 @@ int utf8_prev(const char *utf8_data, int nbytes, int idx, uint32_t *utf32_code)
 int utf8_next(const char *utf8_data, int nbytes, int idx, uint32_t *utf32_code)
 {
     // Get the byte count of the current sequence.
-    int n = utf8_sequence_to_utf32_codepoint(utf8_data + idx, nbytes, NULL);
+    int n = utf8_sequence_to_utf32_codepoint(utf8_data + idx, nbytes - idx, NULL);
     
     if(n < 1)
         return -1;
 
     // Now get the codepoint of the next sequence.
-    int k = utf8_sequence_to_utf32_codepoint(utf8_data + idx + n, nbytes, utf32_code);
+    int k = utf8_sequence_to_utf32_codepoint(utf8_data + idx + n, nbytes - idx - n, utf32_code);
 
     if(k < 1)
         return -1;
-- 
2.43.0


From 5addff110d2a75d01fa2f646cb160615db6ded83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 14/81] fix: trim the trailing spaces of strings with leading
 spaces

---
 src/lib/builtins/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 8f1d53d..b6e9057 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -220,6 +220,7 @@ static int bin_trim(Runtime *runtime, Object **argv, unsigned int argc, Object *
         // NOTE: The string doesn't contain only
         //       whitespace, so the length can't
         //       go under 1.
+        length -= offset;
         while (srcstr[offset + length - 1] == ' ')
             length--;
 
-- 
2.43.0


From 4a5024962ac587c0db6aba47ea5048cfd4dda88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:19 +0000
Subject: [PATCH 15/81] fix: don't truncate the argument of string.chr to 32
 bits

---
 src/lib/builtins/string.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index b6e9057..406bb25 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -61,9 +61,11 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
     char buff[32];
     
-    int value = Object_GetInt(argv[0]);
+    long long int value = Object_GetInt(argv[0]);
     
-    int k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
+    int k = -1;
+    if(value >= 0 && value <= UINT32_MAX)
+        k = utf8_sequence_from_utf32_codepoint(buff,sizeof(buff),value);
 
     if(k<0)
     {
-- 
2.43.0


From fc15c41d0a5f37034e41c34380024a6ce151249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 16/81] fix: terminate the string and buffer builtin tables

---
 src/lib/builtins/buffer.c | 1 +
 src/lib/builtins/string.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index f2d1e0c..51f42fe 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -95,4 +95,5 @@ StaticMapSlot bins_buffer[] = {
     { "sliceUp", SM_FUNCT, .as_funct = bin_sliceUp, .argc = 3 },
     { "toString",   SM_FUNCT, .as_funct = bin_toString,   .argc = 1 },
     { "fromString", SM_FUNCT, .as_funct = bin_fromString, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 406bb25..4c4daa9 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -275,4 +275,5 @@ StaticMapSlot bins_string[] = {
     { "trim", SM_FUNCT, .as_funct = bin_trim, .argc = 1 },
     { "slice", SM_FUNCT, .as_funct = bin_slice, .argc = 3 },
     { "toInt", SM_FUNCT, .as_funct = bin_toInt, .argc = 1 },
+    { NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From 6b3594b38c7e1fcb7d8d9a38401a7ffbcca31f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 17/81] fix: slice buffers relative to the sliced buffer

---
 src/lib/objects/o_buffer.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index b9ed1d0..b91a033 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -138,14 +138,17 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 		return NULL;
 	}
 
-	Payload *payload = ((BufferObject*) obj)->payload;
+	// The range is relative to the buffer that's being
+	// sliced, which may itself be a slice.
+	BufferObject *buffer = (BufferObject*) obj;
+	Payload *payload = buffer->payload;
 
-	if(offset >= payload->size) {
+	if(offset > buffer->length) {
 		Error_Report(error, ErrorType_RUNTIME, "Offset out of range");
 		return NULL;
 	}
 
-	if(offset + length > payload->size) {
+	if(length > buffer->length - offset) {
 		Error_Report(error, ErrorType_RUNTIME, "Length out of range");
 		return NULL;
 	}
@@ -156,7 +159,7 @@ Object *Object_SliceBuffer(Object *obj, size_t offset, size_t length, Heap *heap
 
 	payload->refs++;
 	slice->payload = payload;
-	slice->offset = offset;
+	slice->offset = buffer->offset + offset;
 	slice->length = length;
 
 	return (Object*) slice;
-- 
2.43.0


From 48e30c0f730c495c18731c8b0dd9a9af6816e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 18/81] fix: refuse to create buffers of negative or
 unrepresentable size

---
 src/lib/builtins/buffer.c  | 6 ++++++
 src/lib/objects/o_buffer.c | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/buffer.c b/src/lib/builtins/buffer.c
index 51f42fe..f605e1d 100644
--- a/src/lib/builtins/buffer.c
+++ b/src/lib/builtins/buffer.c
@@ -17,6 +17,12 @@ static int bin_new(Runtime *runtime, Object **argv, unsigned int argc, Object *r
     
     long long int size = Object_GetInt(argv[0]);
 
+    if(size < 0)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "Buffer size must be non-negative");
+        return -1;
+    }
+
     Object *temp = Object_NewBuffer(size, Runtime_GetHeap(runtime), error);
     
     if(temp == NULL)
diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index b91a033..e1aede4 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include "objects.h"
@@ -93,7 +94,9 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 	// Make the thing.
 	BufferObject *obj;
 	{
-		Payload *payload = malloc(sizeof(Payload) + size);
+		Payload *payload = NULL;
+		if(size <= SIZE_MAX - sizeof(Payload))
+			payload = malloc(sizeof(Payload) + size);
 		if(payload == NULL)
 		{
 			Error_Report(error, ErrorType_INTERNAL, "No memory");
@@ -105,7 +108,10 @@ Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 
 		obj = (BufferObject*) Heap_Malloc(heap, &t_buffer, error);
 		if(obj == NULL)
+		{
+			free(payload);
 			return NULL;
+		}
 
 		obj->payload = payload;
 		obj->offset = 0;
-- 
2.43.0


From 39612ea16a36bb77ae31975ccb320dc8888ae547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 19/81] fix: return 64 bit integers from builtins without
 truncating them

---
 src/lib/builtins/files.c |  4 ++--
 src/lib/builtins/net.c   | 10 +++++-----
 src/lib/builtins/utils.c |  2 +-
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index ff18b96..52ef623 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -133,7 +133,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t n = fread(dstptr, 1, count, stream);
 	
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (int64_t) n);
 }
 
 static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -169,7 +169,7 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
-	return returnValues2(error, runtime, rets, "i", n);
+	return returnValues2(error, runtime, rets, "i", (int64_t) n);
 }
 
 static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index fbeb267..e2c8ab2 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -30,7 +30,7 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 			return returnValues2(error, runtime, rets, "ns", strerror(errno));
 	}
 
-	return returnValues2(error, runtime, rets, "i", fd);
+	return returnValues2(error, runtime, rets, "i", (int64_t) fd);
 }
 
 static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -118,7 +118,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = recv(fd, dstptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (int64_t) res);
 }
 
 static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -148,7 +148,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	ssize_t res = send(fd, srcptr, count, 0);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (int64_t) res);
 }
 
 static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -170,7 +170,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	return returnValues2(error, runtime, rets, "iii", new_fd, new_addr.sin_addr.s_addr, new_addr.sin_port);
+	return returnValues2(error, runtime, rets, "iii", (int64_t) new_fd, (int64_t) new_addr.sin_addr.s_addr, (int64_t) new_addr.sin_port);
 }
 
 
@@ -185,7 +185,7 @@ static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	int fd = pargs[0].as_int;
 	int res = close(fd);
-	return returnValues2(error, runtime, rets, "i", res);
+	return returnValues2(error, runtime, rets, "i", (int64_t) res);
 }
 
 StaticMapSlot bins_net[] = {
diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index 5fb3b2c..d09f878 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -14,7 +14,7 @@ int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], cons
 		switch (fmt[i]) {
 			case 'o': ret = va_arg(va, Object*); break;
 			case 'n': ret = Object_NewNone(heap, error); break;
-			case 'i': ret = Object_FromInt  (va_arg(va, int),    heap, error); break;
+			case 'i': ret = Object_FromInt  (va_arg(va, int64_t),heap, error); break;
 			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
 			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
 			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
-- 
2.43.0


From 2e22174a37d850faf256b3f958acda0e407717f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 20/81] fix: compare strings beyond their NUL characters

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 8db2b92..396d13a 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -212,7 +212,7 @@ static _Bool op_eql(Object *self, Object *other)
 	StringObject *s1 = (StringObject*) self;
 	StringObject *s2 = (StringObject*) other;
 
-	_Bool match = s1->bytes == s2->bytes && !strncmp(s1->body, s2->body, s1->bytes);
+	_Bool match = s1->bytes == s2->bytes && !memcmp(s1->body, s2->body, s1->bytes);
 
 	return match;
 }
-- 
2.43.0


From bfdaef22cd00ee7e7be2c2f010bbc96c56023d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 21/81] fix: print strings beyond their NUL characters

---
 src/lib/objects/o_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 396d13a..198b2ea 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -225,7 +225,7 @@ static void print(Object *obj, FILE *fp)
 
 	StringObject *str = (StringObject*) obj;
 
-	fprintf(fp, "%.*s", str->bytes, str->body);
+	fwrite(str->body, 1, str->bytes, fp);
 }
 
 static void walkexts(Object *self, void (*callback)(void **referer, unsigned int size, void *userp), void *userp)
-- 
2.43.0


From b178507da2487b9e34567455cfaa61b75974ad7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 22/81] fix: register math.pow with its two arguments

---
 src/lib/builtins/math.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index 6385e97..d820bc1 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -156,7 +156,7 @@ StaticMapSlot bins_math[] = {
 	{ "log",   SM_FUNCT, .as_funct = bin_log, .argc = 1, },
 	{ "log10", SM_FUNCT, .as_funct = bin_log10, .argc = 1, },
 
-	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 1, },
+	{ "pow",  SM_FUNCT, .as_funct = bin_pow,  .argc = 2, },
 	{ "sqrt", SM_FUNCT, .as_funct = bin_sqrt, .argc = 1, },
 	{ NULL, SM_END, {}, {} },
 };
-- 
2.43.0


From fc7cd3205adb9cd304d1933de917f60ac6cfa6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 23/81] fix: abort when rounding a float that doesn't fit in an
 integer

---
 src/lib/builtins/math.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/math.c b/src/lib/builtins/math.c
index d820bc1..834cb9f 100644
--- a/src/lib/builtins/math.c
+++ b/src/lib/builtins/math.c
@@ -103,7 +103,14 @@ static int bin_ceil(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(ceil(v), Runtime_GetHeap(runtime), error);
+		double r = ceil(v);
+		if(!(r >= -0x1p63 && r < 0x1p63))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Can't represent %f as an integer", v);
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(r, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
@@ -124,7 +131,14 @@ static int bin_floor(Runtime *runtime, Object **argv, unsigned int argc, Object
 	{
 		double v = Object_GetFloat(argv[0]);
 
-		rets[0] = Object_FromInt(floor(v), Runtime_GetHeap(runtime), error);
+		double r = floor(v);
+		if(!(r >= -0x1p63 && r < 0x1p63))
+		{
+			Error_Report(error, ErrorType_RUNTIME, "Can't represent %f as an integer", v);
+			return -1;
+		}
+
+		rets[0] = Object_FromInt(r, Runtime_GetHeap(runtime), error);
 		if(rets[0] == NULL)
 			return -1;
 		return 1;
-- 
2.43.0


From 26a4d8d713dffb7eaf32fc6134d9cfb207f340b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 24/81] fix: don't truncate the byte counts of reads and writes

---
 src/lib/builtins/files.c | 6 +++---
 src/lib/builtins/net.c   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 52ef623..82587a5 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -122,7 +122,7 @@ static int bin_read(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	dstptr = pargs[1].as_buffer.data;
 	dstlen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
@@ -158,14 +158,14 @@ static int bin_write(Runtime *runtime, Object **argv, unsigned int argc, Object
 	srcptr = pargs[1].as_buffer.data;
 	srclen = pargs[1].as_buffer.size;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0) {
 			Error_Report(error, ErrorType_RUNTIME, "Argument count must be a non-negative integer");
 			return -1;
 		}
 		count = MIN((size_t) n, srclen);
 	} else
-		count = (int) srclen;
+		count = srclen;
 
 	size_t n = fwrite(srcptr, 1, count, stream);
 
diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index e2c8ab2..394267d 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -108,7 +108,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, dstlen);
@@ -138,7 +138,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 
 	size_t count;
 	if (pargs[2].defined) {
-		int n = pargs[2].as_int;
+		int64_t n = pargs[2].as_int;
 		if (n < 0)
 			return returnValues2(error, runtime, rets, "ns", "Invalid negative count");
 		count = MIN((size_t) n, srclen);
-- 
2.43.0


From 09604ef15db2a10e188ed2018ccba7b3e90a320f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 25/81] fix: keep random.generate inside of its range, whatever
 the range

---
 src/lib/builtins/random.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/random.c b/src/lib/builtins/random.c
index d21daf3..2182258 100644
--- a/src/lib/builtins/random.c
+++ b/src/lib/builtins/random.c
@@ -31,7 +31,19 @@ static int bin_generate(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	int64_t min, max;
 	if (pargs[0].defined) min = pargs[0].as_int; else min = 0;
 	if (pargs[1].defined) max = pargs[1].as_int; else max = INT64_MAX;
-	int64_t value = min + (max - min) * (double) rand() / RAND_MAX;
+	double temp = min + ((double) max - (double) min) * rand() / RAND_MAX;
+
+	// Rounding may lead out of the range, or even
+	// out of the integers.
+	int64_t lower = min < max ? min : max;
+	int64_t upper = min < max ? max : min;
+	int64_t value;
+	if (temp >= (double) upper)
+		value = upper;
+	else if (temp <= (double) lower)
+		value = lower;
+	else
+		value = temp;
 	return returnValues2(error, runtime, rets, "i", value);
 }
 
-- 
2.43.0


From 9ba57a9a5427bbbeb84291f6a99b1a55ca5874c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 26/81] fix: stop reading a line of input at the end of the
 stream

---
 src/lib/builtins/basic.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index d8e08dc..0642a39 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -178,9 +178,10 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 
 	while(1)
 	{
-		char c = getc(Runtime_GetInputStream(runtime));
+		int c = getc(Runtime_GetInputStream(runtime));
 
-		if(c == '\n')
+		// The end of the stream ends the line too.
+		if(c == '\n' || c == EOF)
 			break;
 
 		if(size == cap)
-- 
2.43.0


From fbbfdb92766bca9cc7dfefad54fa2296cbf4794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:18 +0000
Subject: [PATCH 27/81] fix: don't reallocate the static buffer of the input
 builtin

---
 src/lib/builtins/basic.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 0642a39..495ab38 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -187,7 +187,7 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 		if(size == cap)
 		{
 			int newcap = cap*2;
-			char *tmp = realloc(str, newcap + 1);
+			char *tmp = realloc(str == maybe ? NULL : str, newcap + 1);
 
 			if(tmp == NULL)
 			{
@@ -196,6 +196,11 @@ static int bin_input(Runtime *runtime, Object **argv, unsigned int argc, Object
 				return -1;
 			}
 
+			// The first buffer isn't dynamic, so its
+			// contents weren't moved by realloc.
+			if(str == maybe)
+				memcpy(tmp, maybe, size);
+
 			str = tmp;
 			cap = newcap;
 		}
-- 
2.43.0


From 051b7db2013cb20671f20eea8ace878ec76cbced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 28/81] fix: report invalid file modes instead of opening with
 no mode

---
 src/lib/builtins/files.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index 82587a5..d0f082e 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -51,7 +51,7 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
-	int         mode = pargs[1].as_int;
+	int64_t     mode = pargs[1].as_int;
 
 	FILE *fp;
 	{
@@ -73,9 +73,8 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 			break;
 
 			default:
-			UNREACHABLE;
-			mode2 = NULL;
-			break;
+			Error_Report(error, ErrorType_RUNTIME, "Invalid file mode");
+			return -1;
 		}
 
 		fp = fopen(path, mode2);
-- 
2.43.0


From 4cba4ccf93f49db06a00a1735f9d0ff4032b7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:20 +0000
Subject: [PATCH 29/81] fix: close the stream when its object can't be created

---
 src/lib/builtins/utils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/utils.c b/src/lib/builtins/utils.c
index d09f878..99a318c 100644
--- a/src/lib/builtins/utils.c
+++ b/src/lib/builtins/utils.c
@@ -17,7 +17,14 @@ int returnValuesVA(Error *error, Heap *heap, Object *rets[static MAX_RETS], cons
 			case 'i': ret = Object_FromInt  (va_arg(va, int64_t),heap, error); break;
 			case 'f': ret = Object_FromFloat(va_arg(va, double), heap, error); break;
 			case 's': ret = Object_FromString(va_arg(va, char*), -1, heap, error); break;
-			case 'F': ret = Object_FromStream(va_arg(va, FILE*), heap, error); break;
+			case 'F':
+			{
+				FILE *fp = va_arg(va, FILE*);
+				ret = Object_FromStream(fp, heap, error);
+				if (ret == NULL)
+					fclose(fp);
+				break;
+			}
 			default:
 			Error_Report(error, ErrorType_INTERNAL, "Invalid format specifier '%c'", fmt[i]);
 			return -1;
-- 
2.43.0


From 9476640c8d17aaffc944b2efc342d6979461654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:34 +0000
Subject: [PATCH 30/81] fix: abort when more values are returned than callers
 can receive

---
 src/lib/run.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index e88e2e7..9ab7b7e 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1161,7 +1161,11 @@ static int runExecutableAtIndex(Runtime *runtime, Error *error,
 
     // Get return values
     int retc = Runtime_GetFrameStackUsage(runtime);
-    for (int i = 0; i < MIN(retc, MAX_RETS); i++)
+    if (retc > MAX_RETS) {
+    	Error_Report(error, ErrorType_RUNTIME, "Can't return more than %d values", MAX_RETS);
+    	return -1;
+    }
+    for (int i = 0; i < retc; i++)
     	rets[i] = Runtime_Top(runtime, i-retc+1);
 
     if (!Runtime_PopFrame(runtime))
-- 
2.43.0


From d319b1519096e9529d5fa1b55d6d37e9294d31c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:35 +0000
Subject: [PATCH 31/81] fix: don't use a native function object after its
 callback returned

---
 src/lib/run.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 9ab7b7e..64439d2 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -268,11 +268,15 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 		argc2 = -1;
 	}
 
-	if (!Runtime_PushNativeFrame(func->runtime, error))
+	// The function object itself may be moved by the
+	// callback, if it triggers a GC cycle.
+	Runtime *runtime = func->runtime;
+
+	if (!Runtime_PushNativeFrame(runtime, error))
     	return -1;
 
 	ASSERT(func->callback != NULL);
-	int retc = func->callback(func->runtime, argv2, argc2, rets, error);
+	int retc = func->callback(runtime, argv2, argc2, rets, error);
 		
 	// NOTE: Since the callback may have executed some bytecode, a GC
 	//       cycle may have been triggered, therefore we must assume
@@ -282,7 +286,7 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	if(argv2 != argv)
 		free(argv2);
 
-	if (retc >= 0 && !Runtime_PopFrame(func->runtime))
+	if (retc >= 0 && !Runtime_PopFrame(runtime))
     	return -1;
 
 	return retc;
-- 
2.43.0


From 299b555181a7c7eac513c98c3f8bbb6d7fc7423c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:36 +0000
Subject: [PATCH 32/81] fix: free the padded argument lists of calls that fail
 early

---
 src/lib/run.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 64439d2..04a43a8 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -82,7 +82,10 @@ static int func_call(Object *self, Object **argv, unsigned int argc, Object *ret
 			argv2[i] = Object_NewNone(heap, error);
 
 			if(argv2[i] == NULL)
+			{
+				free(argv2);
 				return -1;
+			}
 		}
 	}
 	else
@@ -272,8 +275,11 @@ static int native_func_call(Object *self, Object **argv, unsigned int argc, Obje
 	// callback, if it triggers a GC cycle.
 	Runtime *runtime = func->runtime;
 
-	if (!Runtime_PushNativeFrame(runtime, error))
+	if (!Runtime_PushNativeFrame(runtime, error)) {
+		if(argv2 != argv)
+			free(argv2);
     	return -1;
+	}
 
 	ASSERT(func->callback != NULL);
 	int retc = func->callback(runtime, argv2, argc2, rets, error);
-- 
2.43.0


From ec032c0ba13273a359f15537baf2405a84f2e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:37 +0000
Subject: [PATCH 33/81] fix: report the failure to allocate outside of a full
 heap

---
 src/lib/objects/heap.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 77c3659..f42daa8 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -303,7 +303,10 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 		OflowAlloc *oflow = malloc(sizeof(OflowAlloc) + size);
 		
 		if(oflow == 0)
+		{
+			Error_Report(err, ErrorType_INTERNAL, "No memory");
 			return 0;
+		}
 
 		oflow->prev = heap->oflow;
 		heap->oflow = oflow;
-- 
2.43.0


From 0033b52491b2bad343f523816f3bbe188fe9fdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:58 +0000
Subject: [PATCH 34/81] fix: keep a frame for each source that failed to
 compile

---
 src/lib/runtime.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 53fd5ea..4f4f75e 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -86,7 +86,6 @@ struct xRuntime {
 	FILE *stdout;
 	FILE *stderr;
 
-	FailedFrame failed_frame;
 };
 
 bool Runtime_plugBuiltins(Runtime *runtime, Object *object, Error *error)
@@ -610,10 +609,15 @@ static bool appendFrame(Runtime *runtime, Error *error, Frame *frame)
 
 bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int offset)
 {
-	FailedFrame *failed_frame = &runtime->failed_frame;
+	FailedFrame *failed_frame = malloc(sizeof(FailedFrame));
+	if (failed_frame == NULL) {
+		Error_Report(error, ErrorType_INTERNAL, "Out of memory");
+		return false;
+	}
 
 	Source *source_copy = Source_Copy(source);
 	if (source_copy == NULL) {
+		free(failed_frame);
 		Error_Report(error, ErrorType_INTERNAL, "Failed to copy source object");
 		return false;
 	}
@@ -625,6 +629,7 @@ bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int
 
 	if (!appendFrame(runtime, error, (Frame*) failed_frame)) {
 		Source_Free(source_copy);
+		free(failed_frame);
 		return false;
 	}
 	return true;
@@ -709,6 +714,7 @@ bool Runtime_PopFrame(Runtime *runtime)
 		case FrameType_FAILED: {
 			FailedFrame *failed_frame = (FailedFrame*) frame;
 			Source_Free(failed_frame->source);
+			free(frame);
 			break;
 		}
 	}
-- 
2.43.0


From f22b2075d0caee3e3e46bc6f4eda1c0853cef734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:38 +0000
Subject: [PATCH 35/81] fix: blame the failing instruction in stack traces, not
 the next one

---
 src/lib/run.c     |  2 +-
 src/lib/runtime.c | 13 ++++++++++++-
 src/lib/runtime.h |  1 +
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 04a43a8..eea9e6f 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -544,7 +544,7 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 		return 0;
 	}
 	
-	Runtime_SetInstructionIndex(runtime, index+1);
+	Runtime_StartNextInstruction(runtime);
 
 	switch(opcode)
 	{
diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 4f4f75e..aaba99a 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -59,6 +59,8 @@ typedef struct {
 	Object *closure;
 	Executable *exe;
 	int index, used;
+	int last; // Index of the last instruction that was
+	          // started (the one to blame for errors).
 } NormalFrame;
 
 typedef struct {
@@ -156,7 +158,7 @@ static int getFrameOffset(Frame *frame)
 		case FrameType_NORMAL: 
 		{
 			NormalFrame *normal_frame = (NormalFrame*) frame;
-			return Executable_GetInstrOffset(normal_frame->exe, normal_frame->index);
+			return Executable_GetInstrOffset(normal_frame->exe, normal_frame->last);
 		}
 
 		case FrameType_NATIVE: return -1;
@@ -495,6 +497,14 @@ Object *Runtime_Top(Runtime *runtime, int n)
 	return top;
 }
 
+void Runtime_StartNextInstruction(Runtime *runtime)
+{
+	ASSERT(runtime->frame->type == FrameType_NORMAL);
+	NormalFrame *normal_frame = (NormalFrame*) runtime->frame;
+	normal_frame->last = normal_frame->index;
+	normal_frame->index++;
+}
+
 void Runtime_SetInstructionIndex(Runtime *runtime, int index)
 {
 	ASSERT(runtime->frame->type == FrameType_NORMAL);
@@ -679,6 +689,7 @@ bool Runtime_PushFrame(Runtime *runtime, Error *error, Object *closure, Executab
 	frame->closure = closure;
 	frame->exe = exe_copy;
 	frame->index = index;
+	frame->last = index;
 	frame->used = 0;
 	frame->locals = locals;
 
diff --git a/src/lib/runtime.h b/src/lib/runtime.h
index bac78ba..e5d7d46 100644
--- a/src/lib/runtime.h
+++ b/src/lib/runtime.h
@@ -76,6 +76,7 @@ bool Runtime_PushNativeFrame(Runtime *runtime, Error *error);
 bool Runtime_PushFailedFrame(Runtime *runtime, Error *error, Source *source, int offset);
 bool Runtime_PopFrame(Runtime *runtime);
 void Runtime_SetInstructionIndex(Runtime *runtime, int index);
+void Runtime_StartNextInstruction(Runtime *runtime);
 bool Runtime_SetVariable(Runtime *runtime, Error *error, const char *name, Object *value);
 bool Runtime_GetVariable(Runtime *runtime, Error *error, const char *name, Object **value);
 Object *Runtime_GetLocals(Runtime *runtime);
-- 
2.43.0


From 9a5dd6cb161c1d487ec0b544470d2883fa0daa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 36/81] fix: print the whole stack trace on the requested
 stream

---
 src/lib/runtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index aaba99a..e69b9ea 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -217,7 +217,7 @@ void Runtime_PrintStackTrace(Runtime *runtime, FILE *stream)
 	fprintf(stream, "Stack trace:\n");
 	Frame *frame = runtime->frame;
 	if (frame == NULL)
-		fprintf(stderr, "\t(No active frames)\n");
+		fprintf(stream, "\t(No active frames)\n");
 	else {
 		size_t depth = 0;
 		do {
-- 
2.43.0


From 29a4f72783912611443fff9a833b39f1f78ab480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:41 +0000
Subject: [PATCH 37/81] fix: don't overflow when hashing lists and maps

---
 src/lib/objects/o_list.c | 3 ++-
 src/lib/objects/o_map.c  | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index acc2900..0fb3042 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -115,7 +115,8 @@ static int hash(Object *self)
 
 	ListObject *ls = (ListObject*) self;
 
-	int h = 0;
+	// Unsigned, since it may wrap around.
+	unsigned int h = 0;
 	// The hash is the sum of the nested
 	// hashes. It's not a smart solution
 	// but it works for now.
diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index ad23e39..715e727 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -138,12 +138,13 @@ static int hash(Object *self)
 {
 	MapObject *m = (MapObject*) self;
 
-	int h = 0;
+	// Unsigned, since it may wrap around.
+	unsigned int h = 0;
 	// The hash of the map is the sum of the
 	// hashes of each key and each item.
 	for(int i = 0; i < m->count; i += 1)
-		h += Object_Hash(m->keys[i])
-		   + Object_Hash(m->vals[i]);
+		h += (unsigned int) Object_Hash(m->keys[i])
+		   + (unsigned int) Object_Hash(m->vals[i]);
 	return h;
 }
 
-- 
2.43.0


From 9a2875ed59d160e2cb63f0756dccddb4c862408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:02 +0000
Subject: [PATCH 38/81] fix: don't destroy objects twice when a collection
 fails

---
 src/lib/objects/heap.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index f42daa8..737d60d 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -360,6 +360,7 @@ _Bool Heap_StartCollection(Heap *heap, Error *error)
 
 static bool callDestructors(Heap *heap)
 {
+	bool success = true;
 	int i = 0;
 
 	while(i < heap->pend_used)
@@ -373,15 +374,27 @@ static bool callDestructors(Heap *heap)
 		}
 		else
 		{
-			// We need to call the destructor.
+			// We need to call the destructor. It's given
+			// its own error since the collection may have
+			// already failed.
 
-			heap->pend[i].destructor(obj, heap->error);
-					
-			if(heap->error->occurred) 
-				return false; // There will be leaks.
-			
+			Error error;
+			Error_Init(&error);
+
+			heap->pend[i].destructor(obj, &error);
+
+			// Whether it succeeded or not, the destructor
+			// must not be called again.
 			heap->pend[i] = heap->pend[heap->pend_used-1];
 			heap->pend_used -= 1;
+
+			if(error.occurred)
+			{
+				if(!heap->error->occurred)
+					Error_Report(heap->error, error.type, "%s", error.message);
+				Error_Free(&error);
+				success = false;
+			}
 		}
 	}
 
@@ -397,7 +410,7 @@ static bool callDestructors(Heap *heap)
 		}
 	}
 
-	return true;
+	return success;
 }
 
 static void freeOverflowAllocations(Heap *heap)
@@ -414,9 +427,8 @@ _Bool Heap_StopCollection(Heap *heap)
 {
 	assert(heap->collecting == 1);
 
-	if(!callDestructors(heap))
-		return false;
-	
+	bool success = callDestructors(heap);
+
 	freeOverflowAllocations(heap);
 
 	free(heap->old_body);
@@ -424,7 +436,7 @@ _Bool Heap_StopCollection(Heap *heap)
 	heap->collecting = 0;
 	heap->objcount = heap->movedcount;
 
-	return !heap->collection_failed;
+	return success && !heap->collection_failed;
 }
 
 void Heap_CollectExtension(void **referer, unsigned int size, void *userp)
-- 
2.43.0


From 3339951b0c08c703fa1bd4316b1f130aeed58aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:42 +0000
Subject: [PATCH 39/81] fix: initialise the offset of compilation errors

---
 src/lib/assembler/assemble.c | 4 ++++
 src/lib/compiler/compile.c   | 5 ++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index f373e7f..d76c5f2 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -380,6 +380,10 @@ Executable *assemble(Source *src, Error *error, int *error_offset)
 {
     Executable *exe = NULL;
 
+    // Not all failures are associated to a position
+    // in the source.
+    *error_offset = -1;
+
     BPAlloc *alloc = BPAlloc_Init(-1);
     if(alloc == NULL) {
         *error_offset = -1;
diff --git a/src/lib/compiler/compile.c b/src/lib/compiler/compile.c
index 0620f48..7352390 100644
--- a/src/lib/compiler/compile.c
+++ b/src/lib/compiler/compile.c
@@ -7,12 +7,15 @@
 
 Executable *compile(Source *src, Error *error, int *error_offset)
 {
+    // Not all failures are associated to a position
+    // in the source.
+    *error_offset = -1;
+
     // Create a bump-pointer allocator to hold the AST.
     BPAlloc *alloc = BPAlloc_Init(-1);
 
     if(alloc == NULL)
     {
-        *error_offset = -1;
         Error_Report(error, ErrorType_INTERNAL, "No memory");
         return NULL;
     }
-- 
2.43.0


From 7852319955d77c0dde4767818e0e779e48449d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:13 +0000
Subject: [PATCH 40/81] fix: don't evaluate selections to none when running out
 of memory

---
 src/lib/run.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/run.c b/src/lib/run.c
index eea9e6f..c0acd71 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -877,6 +877,14 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			Object *val = Object_Select(col, key, heap, &dummy);
 
 			if(val == NULL) {
+
+				// A missing element evaluates to none, but running
+				// out of memory is still an error.
+				if(dummy.type == ErrorType_INTERNAL) {
+					Error_Report(error, dummy.type, "%s", dummy.message);
+					Error_Free(&dummy);
+					return 0;
+				}
 				Error_Free(&dummy);
 
 				val = Object_NewNone(heap, error);
-- 
2.43.0


From 95feba7622b7ef7f2250cdfef686f526ae5b75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:14 +0000
Subject: [PATCH 41/81] fix: stop assembling when an opcode is missing

---
 src/lib/assembler/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index d76c5f2..020119d 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -59,7 +59,7 @@ static bool parseLabelAndOpcode(Context *ctx, bool *no_label,
             // ERROR: Missing opcode
             *ctx->error_offset = ctx->cur;
             Error_Report(error, ErrorType_SYNTAX, "Missing opcode");
-            #warning "should there be a return here?"
+            return false;
         }
         
         label_or_opcode.offset = ctx->cur;
-- 
2.43.0


From 3191abfb7a017cd695dadd8ee819594d830a130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:15 +0000
Subject: [PATCH 42/81] fix: refuse labels as floating point operands

---
 src/lib/executable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/executable.c b/src/lib/executable.c
index 0d35f4c..91ca0b9 100644
--- a/src/lib/executable.c
+++ b/src/lib/executable.c
@@ -568,9 +568,10 @@ _Bool ExeBuilder_Append(ExeBuilder *exeb, Error *error, Opcode opcode, Operand *
 				{
 					ASSERT(opv[i].as_promise != NULL);
 
-					if(expected_type == OPTP_STRING)
+					if(expected_type == OPTP_STRING || expected_type == OPTP_FLOAT)
 					{
-						Error_Report(error, ErrorType_INTERNAL, "Promise values can't be provided as string operands");
+						Error_Report(error, ErrorType_INTERNAL, "Promise values can't be provided as %s operands",
+							operand_type_names[expected_type]);
 						return 0;
 					}
 							
-- 
2.43.0


From cc7031c08d1efc0a086d21cc058d16c8956fa41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 43/81] fix: assemble floating point literals exactly

---
 src/lib/assembler/assemble.c | 29 ++++++++++-------------------
 1 file changed, 10 insertions(+), 19 deletions(-)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index 020119d..d9977c8 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -1,5 +1,6 @@
 #include <ctype.h>
 #include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <assert.h>
 #include "../executable.h"
@@ -244,34 +245,24 @@ static bool parseFloatingOperand(Context *ctx, Error *error, Operand *op)
         ctx->cur++;
     }
 
-    double buffer = 0;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        // Should overflow be checked?
-        buffer = buffer * 10 + d;
+    // Use the same conversion as the compiler. (The source
+    // is zero-terminated. If the literal is followed by
+    // something that strtod considers to be a part of it,
+    // the caller will refuse it anyway.)
+    double buffer = strtod(ctx->str + ctx->cur, NULL);
 
+    do
         ctx->cur += 1;
-    } while(ctx->str[ctx->cur] != '.');
+    while(ctx->str[ctx->cur] != '.');
 
     assert(ctx->cur+1 < ctx->len && ctx->str[ctx->cur] == '.' && isdigit(ctx->str[ctx->cur+1]));
 
     // Skip the dot.
     ctx->cur += 1;
 
-    double q = 1;
-    do {
-        // Transform each digit into its integer value.
-        int d = ctx->str[ctx->cur] - '0';
-        assert(d >= 0 && d <= 9);
-
-        q /= 10;
-        buffer += q * d;
-
+    do
         ctx->cur += 1;
-    } while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]));
+    while(ctx->cur < ctx->len && isdigit(ctx->str[ctx->cur]));
     
     op->type = OPTP_FLOAT;
     op->as_float = sign * buffer;
-- 
2.43.0


From 611b4c772bdcdc863db2b6ec37ccecd8b378d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:17 +0000
Subject: [PATCH 44/81] fix: refuse labels that are defined twice

---
 src/lib/assembler/assemble.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index d9977c8..5837044 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -421,6 +421,12 @@ Executable *assemble(Source *src, Error *error, int *error_offset)
         // If a label was defined, add it to the list.
         if(no_label == false) {
             long long int value = ExeBuilder_InstrCount(builder);
+            Promise *promise = LabelList_GetLabel(list, ctx.str + label.offset, label.length);
+            if(promise != NULL && Promise_hasResolved(promise)) {
+                *error_offset = label.offset;
+                Error_Report(error, ErrorType_SEMANTIC, "Label %.*s was already defined", (int) label.length, ctx.str + label.offset);
+                goto done;
+            }
             if(!LabelList_SetLabel(list, ctx.str + label.offset, label.length, value)) {
                 *error_offset = ctx.cur;
                 Error_Report(error, ErrorType_INTERNAL, "Out of memory");
-- 
2.43.0


From 85018bf3166ac938dfead4ede8e3b6875519fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:18 +0000
Subject: [PATCH 45/81] fix: check the operands of CALL

---
 src/lib/run.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index c0acd71..d7a765b 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -807,15 +807,16 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(ops[0].type == OPTP_INT);
 			ASSERT(ops[1].type == OPTP_INT);
 
-			int argc = ops[0].as_int;
-			int retc = ops[1].as_int;
-			ASSERT(argc >= 0 && retc > 0);
+			long long int argc = ops[0].as_int;
+			long long int retc = ops[1].as_int;
+			if (argc < 0 || retc < 1) {
+				Error_Report(error, ErrorType_INTERNAL, "Invalid CALL operands");
+				return 0;
+			}
 
 			Object *callable;
-			if (!Runtime_Pop(runtime, error, &callable, 1)) {
-				Error_Report(error, ErrorType_INTERNAL, "Frame doesn't own enough objects to execute call");
+			if (!Runtime_Pop(runtime, error, &callable, 1))
 				return 0;
-			}
 
 			Object *argv[32];
 
-- 
2.43.0


From c7262c6d2233e4cd4482cd7236335a44499b2ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:19 +0000
Subject: [PATCH 46/81] fix: check the operands of POP, PUSHFUN and RETURN

---
 src/lib/run.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index d7a765b..af565cb 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1,4 +1,5 @@
 #include <time.h>
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "runtime.h"
@@ -749,6 +750,10 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 		case OPCODE_POP:
 		{
 			ASSERT(opc == 1);
+			if(ops[0].as_int < 0 || ops[0].as_int > INT_MAX) {
+				Error_Report(error, ErrorType_INTERNAL, "Invalid POP operand");
+				return 0;
+			}
 			return Runtime_Pop(runtime, error, NULL, ops[0].as_int);
 		}
 
@@ -1017,6 +1022,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(ops[1].type == OPTP_INT);
 			ASSERT(ops[2].type == OPTP_STRING);
 
+			if(ops[1].as_int < 0 || ops[1].as_int > INT_MAX) {
+				Error_Report(error, ErrorType_INTERNAL, "Invalid number of function arguments");
+				return 0;
+			}
+
 			Object *locals  = Runtime_GetLocals(runtime);
 			Object *old_closure = Runtime_GetClosure(runtime);
 			Object *new_closure = Object_NewClosure(old_closure, locals, heap, error); // Should old_closure and locals be in the reverse order?
@@ -1093,11 +1103,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 		{
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
-			int retc = ops[0].as_int;
-			UNUSED(retc);
-			ASSERT(retc >= 0);
-			ASSERT(retc <= MAX_RETS);
-			ASSERT((size_t) retc == Runtime_GetFrameStackUsage(runtime));
+			if(ops[0].as_int < 0 || (size_t) ops[0].as_int != Runtime_GetFrameStackUsage(runtime))
+				Error_Report(error, ErrorType_INTERNAL, "The number of values on the stack doesn't match the number of returned values");
 			return 0;
 		}
 
-- 
2.43.0


From dce2cfcc0a3c8c489134fed37c11364560eb7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:20 +0000
Subject: [PATCH 47/81] fix: don't overflow when reporting the index of an
 argument

---
 src/lib/run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index af565cb..d41371b 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -799,8 +799,8 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 					Object_Print(arg, provided_fp);
 					fclose(provided_fp);
 				}
-				Error_Report(error, ErrorType_RUNTIME, "Argument %d \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
-							 arg_index+1, arg_name, allowed, provided);
+				Error_Report(error, ErrorType_RUNTIME, "Argument %u \"%s\" has an unallowed type. Was expected something with type %s but was provided %s", 
+							 (unsigned int) arg_index + 1, arg_name, allowed, provided);
 				return 0;
 			}
 			return 1;
-- 
2.43.0


From 29d8987e79811ffe685f91e6796cf66f8ae5d35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 48/81] fix: refuse to create lists and maps whose size
 overflows

---
 src/lib/objects/o_list.c |  6 ++++++
 src/lib/objects/o_map.c  |  7 +++++++
 src/lib/run.c            | 10 ++++++++++
 3 files changed, 23 insertions(+)

diff --git a/src/lib/objects/o_list.c b/src/lib/objects/o_list.c
index 0fb3042..8ea029d 100644
--- a/src/lib/objects/o_list.c
+++ b/src/lib/objects/o_list.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include <string.h>
 #include "objects.h"
 #include "../utils/defs.h"
@@ -157,6 +158,11 @@ Object *Object_NewList(int capacity, Heap *heap, Error *error)
 	if(capacity < 8)
 		capacity = 8;
 
+	if(capacity > INT_MAX / (int) sizeof(Object*)) {
+		Error_Report(error, ErrorType_INTERNAL, "List is too big");
+		return NULL;
+	}
+
 	// Make the thing.
 	ListObject *obj;
 	{
diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index 715e727..ff2248b 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include "objects.h"
 #include "../utils/defs.h"
 #include "../defs.h"
@@ -159,6 +160,12 @@ Object *Object_NewMap(int num, Heap *heap, Error *error)
 	if(num < 0)
 		num = 0;
 
+	// The sizes of the arrays must be representable.
+	if(num > INT_MAX / 16) {
+		Error_Report(error, ErrorType_INTERNAL, "Map is too big");
+		return NULL;
+	}
+
 	// Calculate initial mapper size.
 	int mapper_size, capacity;
 	{
diff --git a/src/lib/run.c b/src/lib/run.c
index d41371b..478e291 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -1045,6 +1045,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
 
+			if(ops[0].as_int < INT_MIN || ops[0].as_int > INT_MAX) {
+				Error_Report(error, ErrorType_INTERNAL, "List is too big");
+				return 0;
+			}
+
 			Object *obj = Object_NewList(ops[0].as_int, heap, error);
 			if(obj == NULL)
 				return 0;
@@ -1057,6 +1062,11 @@ static _Bool runInstruction(Runtime *runtime, Error *error)
 			ASSERT(opc == 1);
 			ASSERT(ops[0].type == OPTP_INT);
 
+			if(ops[0].as_int < INT_MIN || ops[0].as_int > INT_MAX) {
+				Error_Report(error, ErrorType_INTERNAL, "Map is too big");
+				return 0;
+			}
+
 			Object *obj = Object_NewMap(ops[0].as_int, heap, error);
 			if(obj == NULL)
 				return 0;
-- 
2.43.0


From 6919be7c664cbd80cf251024e49362c9c712d0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:53 +0000
Subject: [PATCH 49/81] fix: compare the whole integer operands of executables

---
 src/lib/executable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/executable.c b/src/lib/executable.c
index 91ca0b9..3f7c9f5 100644
--- a/src/lib/executable.c
+++ b/src/lib/executable.c
@@ -377,11 +377,11 @@ _Bool Executable_Equiv(Executable *exe1, Executable *exe2, FILE *log, const char
 				case OPTP_IDX:
 				case OPTP_INT:
 				{
-					int v1 = exe1_opv[opno].as_int;
-					int v2 = exe2_opv[opno].as_int;
+					long long int v1 = exe1_opv[opno].as_int;
+					long long int v2 = exe2_opv[opno].as_int;
 					if(v1 != v2) {
 						if(log != NULL)
-							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%d != %d)\n", 
+							fprintf(log, "%s%s Instructions (at index %d) have different integer operands (at index %d) (%lld != %lld)\n", 
 								log_prefix, Executable_GetOpcodeName(exe1_opcode), idx, opno, v1, v2);
 						return false;
 					}
-- 
2.43.0


From 5c2e19a6e6dfa7517b47c741feae577d36dcda56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:27 +0000
Subject: [PATCH 50/81] fix: don't print errors of unspecified type as syntax
 errors

---
 src/lib/utils/error.c | 2 +-
 src/lib/utils/error.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils/error.c b/src/lib/utils/error.c
index 4feb7f5..4dc1959 100644
--- a/src/lib/utils/error.c
+++ b/src/lib/utils/error.c
@@ -144,7 +144,7 @@ void Error_Print(Error *error, ErrorType type_if_unspecified, FILE *stream)
         type = type_if_unspecified;
 
     const char *name;
-    switch (error->type) {
+    switch (type) {
         case ErrorType_INTERNAL: name = "Internal Error"; break;
         case ErrorType_SYNTAX:   name =   "Syntax Error"; break;
         case ErrorType_SEMANTIC: name = "Semantic Error"; break;
diff --git a/src/lib/utils/error.h b/src/lib/utils/error.h
index 4a5ddaf..4d8a159 100644
--- a/src/lib/utils/error.h
+++ b/src/lib/utils/error.h
@@ -35,11 +35,11 @@
 #include <stdarg.h>
 
 typedef enum {
+	ErrorType_UNSPECIFIED = 0,
 	ErrorType_SYNTAX,
 	ErrorType_SEMANTIC,
 	ErrorType_RUNTIME,
 	ErrorType_INTERNAL,
-	ErrorType_UNSPECIFIED = 0,
 } ErrorType;
 
 typedef struct Error Error;
-- 
2.43.0


From 593edb2a06579e72206191c3be5c2de2ed32e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 51/81] fix: refuse paths containing a zero byte

---
 src/lib/builtins/basic.c |  4 ++++
 src/lib/builtins/files.c | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/lib/builtins/basic.c b/src/lib/builtins/basic.c
index 495ab38..3c0c32d 100644
--- a/src/lib/builtins/basic.c
+++ b/src/lib/builtins/basic.c
@@ -133,6 +133,10 @@ static int bin_import(Runtime *runtime,
 		return -1;
 
 	const char *path = pargs[0].as_string.data;
+	if (strlen(path) != pargs[0].as_string.size) {
+		Error_Report(error, ErrorType_RUNTIME, "Invalid path: it contains a zero byte");
+		return -1;
+	}
 	return runFileRelativeToScript(runtime, path, rets, error);
 }
 
diff --git a/src/lib/builtins/files.c b/src/lib/builtins/files.c
index d0f082e..fdce83d 100644
--- a/src/lib/builtins/files.c
+++ b/src/lib/builtins/files.c
@@ -29,6 +29,7 @@
 */
 
 #include <errno.h>
+#include <string.h>
 #include "files.h"
 #include "utils.h"
 #include "../utils/defs.h"
@@ -53,6 +54,9 @@ static int bin_openFile(Runtime *runtime, Object **argv, unsigned int argc, Obje
 	const char *path = pargs[0].as_string.data;
 	int64_t     mode = pargs[1].as_int;
 
+	if (strlen(path) != pargs[0].as_string.size)
+		return returnValues(error, heap, rets, "ns", "Path contains a zero byte");
+
 	FILE *fp;
 	{
 		const char *mode2;
@@ -186,9 +190,13 @@ static int bin_openDir(Runtime *runtime, Object **argv, unsigned int argc, Objec
 
 	Heap *heap = Runtime_GetHeap(runtime);
 
-	const char *path = Object_GetString(argv[0], NULL);
+	size_t path_size;
+	const char *path = Object_GetString(argv[0], &path_size);
 	ASSERT(path != NULL);
 
+	if(strlen(path) != path_size)
+		return 0; // It contains a zero byte.
+
 	DIR *dir = opendir(path);
 
 	if(dir == NULL)
-- 
2.43.0


From d5cb8b2d69d9949ab2566146674ef7b918094409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:21 +0000
Subject: [PATCH 52/81] fix: make paths absolute when the current folder is the
 root

---
 src/lib/utils/path.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils/path.c b/src/lib/utils/path.c
index 5b4a995..55b0d63 100644
--- a/src/lib/utils/path.c
+++ b/src/lib/utils/path.c
@@ -19,12 +19,15 @@ const char *Path_MakeAbsolute(const char *path, char *buff, size_t buffsize)
         return NULL;
 
     size_t written = strlen(buff);
-    assert(buff[written-1] != '/');
 
-    if(written+1 >= buffsize)
-        return NULL; // No space for the / following the cwd.
+    // Only the root folder ends with a slash
+    if(buff[written-1] != '/') {
+        
+        if(written+1 >= buffsize)
+            return NULL; // No space for the / following the cwd.
 
-    buff[written++] = '/';
+        buff[written++] = '/';
+    }
 
     size_t n = strlen(path);
     if(written + n >= buffsize)
-- 
2.43.0


From a6acc544ba38226ec2379014e9b95806f305536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:23 +0000
Subject: [PATCH 53/81] fix: parse the whole -H option and refuse values out of
 range

---
 src/cli/main.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 2c60fee..841dc41 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -27,9 +27,11 @@
 ** | with The Noja Interpreter. If not, see <http://www.gnu.org/licenses/>.   |
 ** +--------------------------------------------------------------------------+ 
 */
+#include <errno.h>
 #include <stdio.h>
 #include <assert.h>
 #include <string.h>
+#include <stdint.h>
 #include <stdlib.h>
 #include <signal.h>
 #include <stdbool.h>
@@ -124,12 +126,17 @@ int main(int argc, char **argv)
 				usage(stderr, argv[0]);
 				return -1;
 			}
-			heap = atoi(argv[++i]);
-			if (heap == 0) {
+			i++;
+
+			char *end;
+			errno = 0;
+			unsigned long long size = strtoull(argv[i], &end, 10);
+			if (errno != 0 || *end != '\0' || size == 0 || size > SIZE_MAX) {
 				fprintf(stderr, "Invalid heap size\n");
 				usage(stderr, argv[0]);
 				return -1;
 			}
+			heap = size;
 			
 		} else {
 			input = argv[i];
-- 
2.43.0


From cadfc61c0075767f512c489fa48a3a55cac8a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 54/81] fix: don't interrupt a runtime that was freed

---
 src/cli/main.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 841dc41..574341e 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -70,7 +70,7 @@ typedef enum {
 	Mode_HELP,
 } Mode;
 
-Runtime *runtime = NULL;
+Runtime *volatile runtime = NULL;
 
 static void signalHandler(int signo)
 {
@@ -79,6 +79,14 @@ static void signalHandler(int signo)
        Runtime_Interrupt(runtime);
 }
 
+static void freeRuntime(void)
+{
+	// The signal handler must not find a runtime that's being freed
+	Runtime *old = runtime;
+	runtime = NULL;
+	Runtime_Free(old);
+}
+
 int main(int argc, char **argv)
 {
 	Mode mode = Mode_DEFAULT;
@@ -229,7 +237,7 @@ int main(int argc, char **argv)
 		   	Error_Print(&error, ErrorType_RUNTIME, stderr);
 		   	Error_Free(&error);
 		   	Runtime_PrintStackTrace(runtime, stderr);
-		    	Runtime_Free(runtime);
+		    	freeRuntime();
 		    	code = -1;
 		    	break;
 		   }
@@ -251,7 +259,7 @@ int main(int argc, char **argv)
 				Error_Print(&error, ErrorType_RUNTIME, stderr);
 		    	Error_Free(&error);
 		    	Runtime_PrintStackTrace(runtime, stderr);
-		    	Runtime_Free(runtime);
+		    	freeRuntime();
 		    	code = -1;
 		    	break;
 			}
@@ -261,7 +269,7 @@ int main(int argc, char **argv)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
 			else
 				Runtime_SerializeProfilingResultsToFile(runtime, output);
-			Runtime_Free(runtime);
+			freeRuntime();
 			break;
 		}
 	}
-- 
2.43.0


From 23bdcabfe868cbda288dd624608747295e77d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:24 +0000
Subject: [PATCH 55/81] fix: report that the profiling results couldn't be
 written

---
 src/cli/main.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 574341e..93e1939 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -267,8 +267,10 @@ int main(int argc, char **argv)
 			code = 0;
 			if (output == NULL)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
-			else
-				Runtime_SerializeProfilingResultsToFile(runtime, output);
+			else if (!Runtime_SerializeProfilingResultsToFile(runtime, output)) {
+				fprintf(stderr, "Error: Couldn't open '%s'\n", output);
+				code = -1;
+			}
 			freeRuntime();
 			break;
 		}
-- 
2.43.0


From d37fccc91078837247447835a128352a03cc7932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:47 +0000
Subject: [PATCH 56/81] fix: stringify negative and large integers

---
 src/lib/builtins/start.noja | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index a561866..2446978 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -21,19 +21,20 @@ fun stringFromDigit(digit: int) {
 # argument and the power of 10 with the same
 # magnitude.
 fun getIntegerMagnitude(n: int) {
-	assert(n >= 0);
 	magn = 0;
 	powr = 1;
-	# Basically grow the power until it's
-	# bigger than the input.
-	while n >= powr * 10: {
+	# Basically grow the power until the quotient 
+	# has one digit. Neither the power nor the 
+	# input's opposite could be representable past 
+	# the ones computed here.
+	while n / powr >= 10 or n / powr <= -10: {
 		powr = 10 * powr;
 		magn = 1 + magn;
 	}
 	return magn, powr;
 }
 
-# Stringify an unsigned integer
+# Stringify an integer
 fun stringFromInteger(n: int) {
 
 	negative = (n < 0);
@@ -42,12 +43,12 @@ fun stringFromInteger(n: int) {
 	# magnitude of the input.
 	_, power = getIntegerMagnitude(n);
 
-	temp = abs(n); # Temporary copy of the input
+	temp = n; # Temporary copy of the input
 	text = ""; # The output we're about to compute
 	
 	while power >= 1: {
 		# Pop the leftmost digit from [temp].
-		digit = temp / power; # Get the leftmost digit
+		digit = abs(temp / power); # Get the leftmost digit
 		temp  = temp % power; # Remove it
 
 		# Add the digit to the output.
-- 
2.43.0


From 12da8f8c9911f7c0561b456e9d0822cfb1135da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:47 +0000
Subject: [PATCH 57/81] fix: stringify negative floats and round the decimals

---
 src/lib/builtins/start.noja | 40 +++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/lib/builtins/start.noja b/src/lib/builtins/start.noja
index 2446978..d4f5b70 100644
--- a/src/lib/builtins/start.noja
+++ b/src/lib/builtins/start.noja
@@ -64,21 +64,35 @@ fun stringFromInteger(n: int) {
 }
 
 fun stringFromFloating(f: float, max_decimals: int = 2) {
-	# This function is just a fast hack
-	epsilon = 0.00000001;
-	asint = math.floor(f);
-	text = stringFromInteger(asint);
-	text = cat(text, ".");
-	magn = 1.0;
-	temp = f - asint;
+	text = "";
+	if f < 0: {
+		text = "-";
+		f = -f;
+	}
+
+	# One past the highest value of the decimals
+	limit = 1;
 	i = 0;
-	do {
-		magn = magn / 10;
-		digit = math.floor(temp / magn);
-		text = cat(text, stringFromDigit(digit));
-		temp = temp - magn * digit; # Remove the handled digit
+	while i < max_decimals: {
+		limit = limit * 10;
 		i = i+1;
-	} while temp > epsilon and i < max_decimals;
+	}
+
+	# Split the integer part from the decimals,
+	# which are rounded to an integer.
+	asint = math.floor(f);
+	decimals = math.floor((f - asint) * limit + 0.5);
+	if decimals >= limit: {
+		asint = asint + 1;
+		decimals = decimals - limit;
+	}
+
+	text = cat(text, stringFromInteger(asint), ".");
+	do {
+		limit = limit / 10;
+		text = cat(text, stringFromDigit(decimals / limit));
+		decimals = decimals % limit; # Remove the handled digit
+	} while decimals > 0;
 	return text;
 }
 
-- 
2.43.0


From 7caa25a9fe07c88182c150517b3b0fce7c8681d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 58/81] fix: don't truncate the integers of the AST diagram

---
 src/lib/compiler/graphviz.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c163c6b..c5c3c8c 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -301,7 +301,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		case EXPR_INT:
 		{
 			IntExprNode *p = (IntExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"%d\"];\n", name, p->val);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%lld\"];\n", name, p->val);
 			return;
 		}
 
-- 
2.43.0


From efbd229a588790ae9c1f9f9e15ca5bcc61a3c060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:42 +0000
Subject: [PATCH 59/81] fix: give tuples a node in the AST diagram

---
 src/lib/compiler/graphviz.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index c5c3c8c..1ec5332 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -231,6 +231,7 @@ static const char *exprkind_to_label(ExprKind kind)
 		case EXPR_OR : return "or";
 		case EXPR_ASS: return "=";
 		case EXPR_ARW: return "->";
+		case EXPR_PAIR: return ",";
 		default:
 		UNREACHABLE;
 		break;
@@ -276,9 +277,6 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 	switch(expr->kind)
 	{
 		case EXPR_PAIR:
-		UNREACHABLE;
-		return; // For the compiler warning.
-
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
 		case EXPR_ASS: case EXPR_ARW:
-- 
2.43.0


From a5a45591a32d387192f9de514486f87ba7376628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:43 +0000
Subject: [PATCH 60/81] fix: don't overrun the array of returned values in the
 AST diagram

---
 src/lib/compiler/graphviz.c | 38 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 1ec5332..595c529 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -183,25 +183,6 @@ static char *GraphViz_Complete(GraphViz *gv, size_t *len)
 
 static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name);
 
-static void flattenTupleTree(ExprNode *root, ExprNode *tuple[], int max, int *count)
-{
-	if(root->kind == EXPR_PAIR)
-	{
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head, tuple, max, count);
-		flattenTupleTree((ExprNode*) ((OperExprNode*) root)->head->next, tuple, max, count);
-	} 
-	else 
-	{
-
-		if(max == *count)
-		{
-			assert(0); // TODO: Do something smart instead
-		}
-
-		tuple[(*count)++] = root;
-	}
-}
-
 static void generateName(int *count, char *dst, size_t max)
 {
 	snprintf(dst, max, "node_%d", ++(*count));
@@ -248,6 +229,17 @@ static void childToGraphViz(GraphViz *ctx, Node *child, int *count, char *parent
 	GraphViz_AppendBody(ctx, "\t%s -> %s;\n", parent, name2);
 }
 
+static void tupleItemsToGraphViz(GraphViz *ctx, ExprNode *root, int *count, char *parent)
+{
+	if(root->kind == EXPR_PAIR)
+	{
+		tupleItemsToGraphViz(ctx, (ExprNode*) ((OperExprNode*) root)->head, count, parent);
+		tupleItemsToGraphViz(ctx, (ExprNode*) ((OperExprNode*) root)->head->next, count, parent);
+	} 
+	else 
+		childToGraphViz(ctx, (Node*) root, count, parent);
+}
+
 static void funcExprToGraphViz(GraphViz *ctx, FuncExprNode *func, char *func_name, int *count, char *name)
 {
 	GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, func_name);
@@ -495,13 +487,7 @@ static void nodeToGraphViz(GraphViz *ctx, Node *node, int *count, char *name)
 
 			GraphViz_AppendHead(ctx, "\t%s [label=\"return\"];\n", name);
 
-			ExprNode *tuple[32];
-			int return_count = 0;
-
-			flattenTupleTree((ExprNode*) ret->val, tuple, sizeof(tuple)/sizeof(tuple[0]), &return_count);
-
-			for(int i = 0; i < return_count; i += 1)
-				childToGraphViz(ctx, (Node*) tuple[i], count, name);
+			tupleItemsToGraphViz(ctx, (ExprNode*) ret->val, count, name);
 			return;
 		}
 
-- 
2.43.0


From e83a3824111611dc55c2d31ab3f3b2fa58da8bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:45 +0000
Subject: [PATCH 61/81] fix: show the object of method calls in the AST diagram

---
 src/lib/compiler/graphviz.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/compiler/graphviz.c b/src/lib/compiler/graphviz.c
index 595c529..15708fd 100644
--- a/src/lib/compiler/graphviz.c
+++ b/src/lib/compiler/graphviz.c
@@ -211,7 +211,6 @@ static const char *exprkind_to_label(ExprKind kind)
 		case EXPR_AND: return "and";
 		case EXPR_OR : return "or";
 		case EXPR_ASS: return "=";
-		case EXPR_ARW: return "->";
 		case EXPR_PAIR: return ",";
 		default:
 		UNREACHABLE;
@@ -271,7 +270,7 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		case EXPR_PAIR:
 		case EXPR_NULLABLETYPE:
 		case EXPR_SUMTYPE:
-		case EXPR_ASS: case EXPR_ARW:
+		case EXPR_ASS:
 		case EXPR_NOT: case EXPR_MOD:
 		case EXPR_POS: case EXPR_NEG:
 		case EXPR_ADD: case EXPR_SUB:
@@ -391,10 +390,11 @@ static void exprToGraphViz(GraphViz *ctx, ExprNode *expr, int *count, char *name
 		funcExprToGraphViz(ctx, (FuncExprNode*) expr, "???", count, name);
 		return;
 
+		case EXPR_ARW:
 		case EXPR_SELECT:
 		{
 			IndexSelectionExprNode *sel = (IndexSelectionExprNode*) expr;
-			GraphViz_AppendHead(ctx, "\t%s [label=\"Select\"];\n", name);
+			GraphViz_AppendHead(ctx, "\t%s [label=\"%s\"];\n", name, expr->kind == EXPR_ARW ? "->" : "Select");
 			childToGraphViz(ctx, sel->set, count, name);
 			childToGraphViz(ctx, sel->idx, count, name);
 			return;
-- 
2.43.0


From a4765a68cf4e1fa478c5765bfc2f081b2465230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 62/81] fix: close the socket that can't be configured

---
 src/lib/builtins/net.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 394267d..5dd0ba9 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -26,8 +26,11 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	
 	if (reuse) {
 		int value = 1;
-		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0)
-			return returnValues2(error, runtime, rets, "ns", strerror(errno));
+		if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &value, sizeof(value)) < 0) {
+			int code = errno;
+			close(fd);
+			return returnValues2(error, runtime, rets, "ns", strerror(code));
+		}
 	}
 
 	return returnValues2(error, runtime, rets, "i", (int64_t) fd);
-- 
2.43.0


From 88ca2a7d1c3638b8734b0e59f57625d342d5af05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 63/81] fix: close the sockets that can't be returned

---
 src/lib/builtins/net.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 5dd0ba9..ac04931 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -33,7 +33,10 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 		}
 	}
 
-	return returnValues2(error, runtime, rets, "i", (int64_t) fd);
+	int retc = returnValues2(error, runtime, rets, "i", (int64_t) fd);
+	if (retc < 0)
+		close(fd);
+	return retc;
 }
 
 static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
@@ -173,7 +176,10 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	return returnValues2(error, runtime, rets, "iii", (int64_t) new_fd, (int64_t) new_addr.sin_addr.s_addr, (int64_t) new_addr.sin_port);
+	int retc = returnValues2(error, runtime, rets, "iii", (int64_t) new_fd, (int64_t) new_addr.sin_addr.s_addr, (int64_t) new_addr.sin_port);
+	if (retc < 0)
+		close(new_fd);
+	return retc;
 }
 
 
-- 
2.43.0


From 72fa7192b3c6c4af1bf40babb501d1e25361c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:50 +0000
Subject: [PATCH 64/81] fix: don't report failures of net.bind as successes

---
 src/lib/builtins/net.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index ac04931..2fda1d6 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -55,7 +55,7 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	int family = pargs[1].as_int;
 
 	if (family != AF_INET)
-		return returnValues2(error, runtime, rets, "ns", "Invalid family (only AF_INET is supported at the moment)");
+		return returnValues2(error, runtime, rets, "s", "Invalid family (only AF_INET is supported at the moment)");
 
 	int   port = pargs[2].as_int;
 	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
@@ -65,8 +65,8 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 		parsed_addr.s_addr = INADDR_ANY;
 	else {
 		int res = inet_pton(family, addr, &parsed_addr);
-		if (res == 0) return returnValues2(error, runtime, rets, "ns", "Invalid address");
-		if (res  < 0) return returnValues2(error, runtime, rets, "ns", "Invalid family");
+		if (res == 0) return returnValues2(error, runtime, rets, "s", "Invalid address");
+		if (res  < 0) return returnValues2(error, runtime, rets, "s", "Invalid family");
 	}
 
 	struct sockaddr_in buff;
-- 
2.43.0


From 7e8dea88bc15d33f3612780e765176d8d8e5d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 65/81] fix: don't let net.send kill the process when the peer
 is gone

---
 src/lib/builtins/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 2fda1d6..7194b5e 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -151,7 +151,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	} else
 		count = srclen;
 	
-	ssize_t res = send(fd, srcptr, count, 0);
+	ssize_t res = send(fd, srcptr, count, MSG_NOSIGNAL);
 	if (res < 0)
 		return returnValues2(error, runtime, rets, "ns", strerror(errno));
 	return returnValues2(error, runtime, rets, "i", (int64_t) res);
-- 
2.43.0


From 3e883036f3a454049bb7a866c26d44c65b38c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:52 +0000
Subject: [PATCH 66/81] fix: return the port of net.accept in host byte order

---
 src/lib/builtins/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 7194b5e..4d0acef 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -176,7 +176,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	ASSERT(new_addr.sin_family == AF_INET);
 	ASSERT(new_addr_size == sizeof(struct sockaddr_in));
 
-	int retc = returnValues2(error, runtime, rets, "iii", (int64_t) new_fd, (int64_t) new_addr.sin_addr.s_addr, (int64_t) new_addr.sin_port);
+	int retc = returnValues2(error, runtime, rets, "iii", (int64_t) new_fd, (int64_t) new_addr.sin_addr.s_addr, (int64_t) ntohs(new_addr.sin_port));
 	if (retc < 0)
 		close(new_fd);
 	return retc;
-- 
2.43.0


From 2d7139f59a7ea4643618f1a871e5f9c27423ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:53 +0000
Subject: [PATCH 67/81] fix: don't truncate the integers given to the network
 functions

---
 src/lib/builtins/net.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index 4d0acef..b6f30d6 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -1,4 +1,5 @@
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <unistd.h>
 #include <sys/socket.h>
@@ -7,6 +8,13 @@
 #include "utils.h"
 #include "../utils/defs.h"
 
+// Out of range values mustn't be mistaken for the
+// ones they'd be truncated to.
+static int toInt(int64_t n)
+{
+	return n < INT_MIN ? INT_MIN : n > INT_MAX ? INT_MAX : (int) n;
+}
+
 static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
 	ASSERT(argc == 4);
@@ -14,9 +22,9 @@ static int bin_socket(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "iii?b"))
 		return -1;
 
-	int domain = pargs[0].as_int;
-	int   type = pargs[1].as_int;
-	int  proto = pargs[2].as_int;
+	int domain = toInt(pargs[0].as_int);
+	int   type = toInt(pargs[1].as_int);
+	int  proto = toInt(pargs[2].as_int);
 	bool reuse = pargs[3].defined ? pargs[3].as_bool : false;
 
 	int fd = socket(domain, type, proto);
@@ -51,12 +59,15 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iii?s"))
 		return -1;
 
-	int     fd = pargs[0].as_int;
-	int family = pargs[1].as_int;
+	int     fd = toInt(pargs[0].as_int);
+	int family = toInt(pargs[1].as_int);
 
 	if (family != AF_INET)
 		return returnValues2(error, runtime, rets, "s", "Invalid family (only AF_INET is supported at the moment)");
 
+	if (pargs[2].as_int < 0 || pargs[2].as_int > 65535)
+		return returnValues2(error, runtime, rets, "s", "Invalid port");
+
 	int   port = pargs[2].as_int;
 	const char *addr = pargs[3].defined ? pargs[3].as_string.data : NULL;
 
@@ -89,8 +100,8 @@ static int bin_listen(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "ii"))
 		return -1;
 
-	int fd      = pargs[0].as_int;
-	int backlog = pargs[1].as_int;
+	int fd      = toInt(pargs[0].as_int);
+	int backlog = toInt(pargs[1].as_int);
 
 	if (listen(fd, backlog) < 0)
 		return returnValues2(error, runtime, rets, "s", strerror(errno));
@@ -108,7 +119,7 @@ static int bin_recv(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int        fd = toInt(pargs[0].as_int);
 	void  *dstptr = pargs[1].as_buffer.data;
 	size_t dstlen = pargs[1].as_buffer.size;
 
@@ -138,7 +149,7 @@ static int bin_send(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (!parseArgs(error, argv, argc, pargs, "iB?i"))
 		return -1;
 
-	int        fd = pargs[0].as_int;
+	int        fd = toInt(pargs[0].as_int);
 	void  *srcptr = pargs[1].as_buffer.data;
 	size_t srclen = pargs[1].as_buffer.size;
 
@@ -166,7 +177,7 @@ static int bin_accept(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd = toInt(pargs[0].as_int);
 	
 	struct sockaddr_in new_addr;
 	socklen_t new_addr_size = sizeof(new_addr);
@@ -192,7 +203,7 @@ static int bin_close(Runtime *runtime, Object **argv, unsigned int argc, Object
 	if (!parseArgs(error, argv, argc, pargs, "i"))
 		return -1;
 
-	int fd = pargs[0].as_int;
+	int fd = toInt(pargs[0].as_int);
 	int res = close(fd);
 	return returnValues2(error, runtime, rets, "i", (int64_t) res);
 }
-- 
2.43.0


From c225224357d9d870d102a3b9ed6e1a3ccff93d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:54 +0000
Subject: [PATCH 68/81] fix: refuse addresses containing a zero byte

---
 src/lib/builtins/net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/builtins/net.c b/src/lib/builtins/net.c
index b6f30d6..289f068 100644
--- a/src/lib/builtins/net.c
+++ b/src/lib/builtins/net.c
@@ -75,6 +75,8 @@ static int bin_bind(Runtime *runtime, Object **argv, unsigned int argc, Object *
 	if (addr == NULL)
 		parsed_addr.s_addr = INADDR_ANY;
 	else {
+		if (strlen(addr) != pargs[3].as_string.size)
+			return returnValues2(error, runtime, rets, "s", "Invalid address");
 		int res = inet_pton(family, addr, &parsed_addr);
 		if (res == 0) return returnValues2(error, runtime, rets, "s", "Invalid address");
 		if (res  < 0) return returnValues2(error, runtime, rets, "s", "Invalid family");
-- 
2.43.0


From 67d20283fc7bc24a8246214c9765d669c171c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:40 +0000
Subject: [PATCH 69/81] fix: compare the keys of static maps in full

---
 src/lib/o_staticmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/o_staticmap.c b/src/lib/o_staticmap.c
index 8f727f0..49e3013 100644
--- a/src/lib/o_staticmap.c
+++ b/src/lib/o_staticmap.c
@@ -117,14 +117,15 @@ static Object *select_(Object *self, Object *key, Heap *heap, Error *error)
 	if(!Object_IsString(key))
 		return NULL;
 
-	const char *name = Object_GetString(key, NULL);
+	size_t length;
+	const char *name = Object_GetString(key, &length);
 	assert(name != NULL);
 
 	if(map->slots == NULL)
 		return NULL;
 
 	for(int i = 0; map->slots[i].name != NULL; i += 1)
-		if(!strcmp(name, map->slots[i].name))
+		if(strlen(map->slots[i].name) == length && !memcmp(name, map->slots[i].name, length))
 		{
 			StaticMapSlot slot = map->slots[i];
 			Object *obj = NULL;
-- 
2.43.0


From a8c398ce82c91473e3d246a41203ab28a88d0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:19 +0000
Subject: [PATCH 70/81] fix: report once that there's no memory for a map

---
 src/lib/objects/o_map.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/lib/objects/o_map.c b/src/lib/objects/o_map.c
index ff2248b..592a784 100644
--- a/src/lib/objects/o_map.c
+++ b/src/lib/objects/o_map.c
@@ -185,10 +185,15 @@ Object *Object_NewMap(int num, Heap *heap, Error *error)
 		obj->mapper_size = mapper_size;
 		obj->count = 0;
 		obj->mapper = Heap_RawMalloc(heap, sizeof(int) * mapper_size, error);
-		obj->keys   = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
-		obj->vals   = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->mapper == NULL)
+			return NULL;
+
+		obj->keys = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->keys == NULL)
+			return NULL;
 
-		if(obj->mapper == NULL || obj->keys == NULL || obj->vals == NULL)
+		obj->vals = Heap_RawMalloc(heap, sizeof(Object*) * capacity, error);
+		if(obj->vals == NULL)
 			return NULL;
 	}
 
@@ -282,11 +287,16 @@ static _Bool grow(MapObject *map, Heap *heap, Error *error)
 	int new_mapper_size = map->mapper_size << 1;
 	int new_capacity = calc_capacity(new_mapper_size);
 
-	int *mapper   = Heap_RawMalloc(heap, sizeof(int) * new_mapper_size, error);
+	int *mapper = Heap_RawMalloc(heap, sizeof(int) * new_mapper_size, error);
+	if(mapper == NULL)
+		return 0;
+
 	Object **keys = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
-	Object **vals = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
+	if(keys == NULL)
+		return 0;
 
-	if(mapper == NULL || keys == NULL || vals == NULL)
+	Object **vals = Heap_RawMalloc(heap, sizeof(Object*) * new_capacity, error);
+	if(vals == NULL)
 		return 0;
 
 	for(int i = 0; i < map->count; i += 1)
-- 
2.43.0


From aa0628ce53a8e6923e8fcd69cf4d4c77d80b8743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:21 +0000
Subject: [PATCH 71/81] fix: tell a failing lookup from an undefined variable

---
 src/lib/runtime.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index e69b9ea..924ceb6 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -578,6 +578,9 @@ bool Runtime_GetVariable(Runtime *runtime, Error *error, const char *name, Objec
 			continue;
 
 		obj = Object_Select(locations[p], key, heap, error);
+
+		if(obj == NULL && error->occurred)
+			return false;
 	}
 
 	*value = obj;
-- 
2.43.0


From 6d73971ec8c755539ca5fed6135d19c9ad6edb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:46 +0000
Subject: [PATCH 72/81] fix: keep heap sizes and usage in 64 bits

---
 src/lib/objects/heap.c    | 16 ++++++++--------
 src/lib/objects/objects.h |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 737d60d..2f9bd70 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -99,9 +99,9 @@ typedef struct {
 
 struct xHeap {
 	int objcount;
-	int   size;
-	int   used;
-	int   total;
+	long long size;
+	long long used;
+	long long total;
 	void *body;
 	OflowAlloc *oflow;
 	PendingDestruct *pend;
@@ -111,13 +111,13 @@ struct xHeap {
 	_Bool collection_failed;
 	int movedcount;
 	void *old_body;
-	int   old_used;
-	int   old_total;
+	long long old_used;
+	long long old_total;
 	OflowAlloc *old_oflow;
 	Error *error;
 };
 
-Heap *Heap_New(int size)
+Heap *Heap_New(long long size)
 {
 	if(size < 0)
 		size = 65536;
@@ -277,7 +277,7 @@ void *Heap_Malloc(Heap *heap, TypeObject *type, Error *err)
 	return (Object*) addr;
 }
 
-void *Heap_RawMalloc(Heap *heap, int size, Error *err)
+void *Heap_RawMalloc(Heap *heap, long long size, Error *err)
 {
 	assert(err);
 	assert(heap);
@@ -285,7 +285,7 @@ void *Heap_RawMalloc(Heap *heap, int size, Error *err)
 
 	void *addr;
 
-	int padding = heap->used;
+	long long padding = heap->used;
 
 	if(heap->used & 7)
 		heap->used = (heap->used & ~7) + 8;
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index 8aa5126..107fa66 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -87,10 +87,10 @@ enum {
 	Object_PRINT  = 1 << 2,
 };
 
-Heap*		 Heap_New(int size);
+Heap*		 Heap_New(long long size);
 void		 Heap_Free(Heap *heap);
 void*		 Heap_Malloc   (Heap *heap, TypeObject *type, Error *err);
-void*		 Heap_RawMalloc(Heap *heap, int size, Error *err);
+void*		 Heap_RawMalloc(Heap *heap, long long size, Error *err);
 bool  	 	 Heap_StartCollection(Heap *heap, Error *error);
 bool  	  	 Heap_StopCollection(Heap *heap);
 void  	 	 Heap_CollectReference(Object **referer, void *heap);
-- 
2.43.0


From e14fc8c84cadb3f9ed018a8428b44df303e58d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:47 +0000
Subject: [PATCH 73/81] fix: refuse concatenations longer than a string can be

---
 src/lib/builtins/string.c  | 12 ++++++++++--
 src/lib/objects/o_string.c |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/builtins/string.c b/src/lib/builtins/string.c
index 4c4daa9..4ac3370 100644
--- a/src/lib/builtins/string.c
+++ b/src/lib/builtins/string.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <limits.h>
 #include <string.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -84,7 +85,7 @@ static int bin_chr(Runtime *runtime, Object **argv, unsigned int argc, Object *r
 
 static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
 {
-    unsigned int total_count = 0;
+    size_t total_count = 0;
 
     for(unsigned int i = 0; i < argc; i += 1)
     {
@@ -103,6 +104,12 @@ static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         // does.
     }
 
+    if(total_count > INT_MAX)
+    {
+        Error_Report(error, ErrorType_RUNTIME, "The resulting string would be too long");
+        return -1;
+    }
+
     char starting[128];
     char *buffer = starting;
 
@@ -117,7 +124,8 @@ static int bin_cat(Runtime *runtime, Object **argv, unsigned int argc, Object *r
         }
     }
 
-    for(unsigned int i = 0, written = 0; i < argc; i += 1)
+    size_t written = 0;
+    for(unsigned int i = 0; i < argc; i += 1)
     {
         size_t length;
         const char *s = Object_GetString(argv[i], &length);
diff --git a/src/lib/objects/o_string.c b/src/lib/objects/o_string.c
index 198b2ea..ede33a6 100644
--- a/src/lib/objects/o_string.c
+++ b/src/lib/objects/o_string.c
@@ -156,7 +156,7 @@ Object *Object_FromString(const char *str, int len, Heap *heap, Error *error)
 	if(strobj == NULL)
 		return NULL;
 
-	strobj->body = Heap_RawMalloc(heap, len+1, error);
+	strobj->body = Heap_RawMalloc(heap, (long long) len + 1, error);
 	strobj->bytes = len;
 	strobj->count = count;
 
@@ -232,7 +232,7 @@ static void walkexts(Object *self, void (*callback)(void **referer, unsigned int
 {
 	StringObject *str = (StringObject*) self;
 	
-	callback((void**) &str->body, str->bytes+1, userp);
+	callback((void**) &str->body, (unsigned int) str->bytes + 1, userp);
 }
 
 static Object*
-- 
2.43.0


From 590ec99427089657f383693bfb3097266430a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:03 +0000
Subject: [PATCH 74/81] fix: refuse heap sizes that no allocation can have

---
 src/lib/objects/heap.c    | 6 +++---
 src/lib/objects/objects.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/objects/heap.c b/src/lib/objects/heap.c
index 2f9bd70..a0a6acd 100644
--- a/src/lib/objects/heap.c
+++ b/src/lib/objects/heap.c
@@ -117,10 +117,10 @@ struct xHeap {
 	Error *error;
 };
 
-Heap *Heap_New(long long size)
+Heap *Heap_New(size_t size)
 {
-	if(size < 0)
-		size = 65536;
+	if(size > PTRDIFF_MAX)
+		return NULL;
 
 	Heap *heap = malloc(sizeof(Heap));
 
diff --git a/src/lib/objects/objects.h b/src/lib/objects/objects.h
index 107fa66..cd218aa 100644
--- a/src/lib/objects/objects.h
+++ b/src/lib/objects/objects.h
@@ -87,7 +87,7 @@ enum {
 	Object_PRINT  = 1 << 2,
 };
 
-Heap*		 Heap_New(long long size);
+Heap*		 Heap_New(size_t size);
 void		 Heap_Free(Heap *heap);
 void*		 Heap_Malloc   (Heap *heap, TypeObject *type, Error *err);
 void*		 Heap_RawMalloc(Heap *heap, long long size, Error *err);
-- 
2.43.0


From 7609290808062b393a74db619551df12e72300db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:40 +0000
Subject: [PATCH 75/81] fix: report the lack of memory for prefix operators

---
 src/lib/compiler/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index 984336d..af52e32 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -1657,7 +1657,11 @@ static Node *parse_prefix_expression(Context *ctx)
 			OperExprNode *temp = BPAlloc_Malloc(ctx->alloc, sizeof(OperExprNode));
 			{
 				if(temp == NULL)
+				{
+					*ctx->error_offset = unary_operator->offset;
+					Error_Report(ctx->error, ErrorType_INTERNAL, "No memory");
 					return NULL;
+				}
 
 				temp->base.base.kind = NODE_EXPR;
 				temp->base.base.next = NULL;
-- 
2.43.0


From bdc3f900f16700aed1bcce11a4fbe98ee55db3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:48 +0000
Subject: [PATCH 76/81] fix: report the lack of memory for profiles

---
 src/lib/run.c    | 4 ++++
 src/lib/timing.c | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/run.c b/src/lib/run.c
index 478e291..06b7720 100644
--- a/src/lib/run.c
+++ b/src/lib/run.c
@@ -195,6 +195,10 @@ Object *Object_FromNojaFunction(Runtime *runtime, const char *name, Executable *
 		size_t line = 0;
 		Source *src = Executable_GetSource(exe);
 		func->timing_id = TimingTable_newEntry(table, src, line, name);
+		if (func->timing_id < 0) {
+			Error_Report(error, ErrorType_INTERNAL, "No memory");
+			return NULL;
+		}
 	}
 
 	return (Object*) func;
diff --git a/src/lib/timing.c b/src/lib/timing.c
index e870b11..f981596 100644
--- a/src/lib/timing.c
+++ b/src/lib/timing.c
@@ -48,7 +48,7 @@ TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, cons
 		if (new_size == 0) new_size = 8;
 
 		void *temp = realloc(table->entries, new_size * sizeof(FunctionExecutionSummary));
-		if (temp == NULL) abort();
+		if (temp == NULL) return -1;
 		
 		table->entries = temp;
 		table->size = new_size;
@@ -56,7 +56,7 @@ TimingID TimingTable_newEntry(TimingTable *table, Source *src, size_t line, cons
 	
 	char *name2 = strdup(name);
 	if (name2 == NULL)
-		abort();
+		return -1;
 	
 	TimingID id = (int) table->used++;
 	table->entries[id].src = Source_Copy(src);
-- 
2.43.0


From 696c7e0b47d54d13692dc61133e46098b6720f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:12 +0000
Subject: [PATCH 77/81] fix: report the failures of the embedder to write its
 output

---
 misc/embedder.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/misc/embedder.c b/misc/embedder.c
index df99914..3517a81 100644
--- a/misc/embedder.c
+++ b/misc/embedder.c
@@ -61,6 +61,13 @@ int main(int argc, char **argv)
     fprintf(out_stream, "\n\t0\n};\n");
 
     fclose(in_stream);
-    fclose(out_stream);
+
+    bool failed = ferror(out_stream);
+    if (fclose(out_stream))
+        failed = true;
+    if (failed) {
+        fprintf(stderr, "Error: Failed to write \"%s\"\n", output);
+        return -1;
+    }
     return 0;
 }
\ No newline at end of file
-- 
2.43.0


From dfbcc9c289ab7fee9858791b67aeb7a3c9deb01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:34 +0000
Subject: [PATCH 78/81] fix: report the failures to write the output file

---
 src/cli/main.c    | 12 +++++++++---
 src/lib/runtime.c |  6 ++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cli/main.c b/src/cli/main.c
index 93e1939..db3e80a 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -200,9 +200,15 @@ int main(int argc, char **argv)
 				}
 			}
 			fwrite(result, 1, strlen(result), stream);
-			if (stream != stdout)
-				fclose(stream);
+			bool failed = ferror(stream);
+			if ((stream == stdout ? fflush(stream) : fclose(stream)) != 0)
+				failed = true;
 			free(result);
+			if (failed) {
+				fprintf(stderr, "Error: Couldn't write '%s'\n", output == NULL ? "(standard output)" : output);
+				code = -1;
+				break;
+			}
 		}
 		code = 0;
 		break;
@@ -268,7 +274,7 @@ int main(int argc, char **argv)
 			if (output == NULL)
 				Runtime_SerializeProfilingResultsToStream(runtime, stdout);
 			else if (!Runtime_SerializeProfilingResultsToFile(runtime, output)) {
-				fprintf(stderr, "Error: Couldn't open '%s'\n", output);
+				fprintf(stderr, "Error: Couldn't write '%s'\n", output);
 				code = -1;
 			}
 			freeRuntime();
diff --git a/src/lib/runtime.c b/src/lib/runtime.c
index 924ceb6..3d8ceab 100644
--- a/src/lib/runtime.c
+++ b/src/lib/runtime.c
@@ -854,6 +854,8 @@ bool Runtime_SerializeProfilingResultsToFile(Runtime *runtime, const char *file)
     if (stream == NULL)
         return false;
     Runtime_SerializeProfilingResultsToStream(runtime, stream);
-    fclose(stream);
-    return true;
+    bool failed = ferror(stream);
+    if (fclose(stream))
+        failed = true;
+    return !failed;
 }
\ No newline at end of file
-- 
2.43.0


From 4ab79c95d01db88b404506067dda84df56394039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:34 +0000
Subject: [PATCH 79/81] fix: report the failures to write the standard output

---
 src/cli/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/main.c b/src/cli/main.c
index db3e80a..c08420f 100644
--- a/src/cli/main.c
+++ b/src/cli/main.c
@@ -282,5 +282,9 @@ int main(int argc, char **argv)
 		}
 	}
 
+	if (code == 0 && (fflush(stdout) != 0 || ferror(stdout))) {
+		fprintf(stderr, "Error: Couldn't write the standard output\n");
+		code = -1;
+	}
 	return code;
 }
\ No newline at end of file
-- 
2.43.0


From d9ba35d51af3db3bd98c1e4efcb5af653999e3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:27 +0000
Subject: [PATCH 80/81] fix: refuse buffers with more bytes than can be counted

---
 src/lib/objects/o_buffer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/objects/o_buffer.c b/src/lib/objects/o_buffer.c
index e1aede4..fb20256 100644
--- a/src/lib/objects/o_buffer.c
+++ b/src/lib/objects/o_buffer.c
@@ -28,6 +28,7 @@
 ** +--------------------------------------------------------------------------+ 
 */
 
+#include <limits.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -91,6 +92,14 @@ Object *Object_NewBufferFromString(const char *str, size_t len, Heap *heap, Erro
 
 Object *Object_NewBuffer(size_t size, Heap *heap, Error *error)
 {
+	// The size must be representable as the count
+	// of an object.
+	if(size > INT_MAX)
+	{
+		Error_Report(error, ErrorType_RUNTIME, "Buffer is too big");
+		return NULL;
+	}
+
 	// Make the thing.
 	BufferObject *obj;
 	{
-- 
2.43.0


From c89fafe7920da6ced57f98a5f96a1869b6e3027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:29 +0000
Subject: [PATCH 81/81] fix: refuse string literals with null bytes

---
 src/lib/assembler/assemble.c | 5 +++++
 src/lib/compiler/parse.c     | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/lib/assembler/assemble.c b/src/lib/assembler/assemble.c
index 5837044..f17de15 100644
--- a/src/lib/assembler/assemble.c
+++ b/src/lib/assembler/assemble.c
@@ -123,6 +123,11 @@ static bool parseStringOperand(Context *ctx, Error *error, BPAlloc *alloc, Opera
             Error_Report(error, ErrorType_INTERNAL, "Buffer is too short to hold string literal");
             return false;
         }
+        if (memchr(ctx->str + offset, '\0', length) != NULL) {
+            *ctx->error_offset = offset;
+            Error_Report(error, ErrorType_SYNTAX, "String literal contains a null byte");
+            return false;
+        }
         memcpy(buffer + used, ctx->str + offset, length);
         used += length;
 
diff --git a/src/lib/compiler/parse.c b/src/lib/compiler/parse.c
index af52e32..08b2a57 100644
--- a/src/lib/compiler/parse.c
+++ b/src/lib/compiler/parse.c
@@ -815,6 +815,13 @@ static Node *parse_string_primary_expression(Context *ctx)
 			return NULL;
 		}
 
+		if(memchr(src + segm_off, '\0', segm_len) != NULL)
+		{
+			*ctx->error_offset = ctx->token->offset;
+			Error_Report(ctx->error, ErrorType_SYNTAX, "String literal contains a null byte");
+			return NULL;
+		}
+
 		memcpy(temp + temp_used, src + segm_off, segm_len);
 		temp_used += segm_len;
 
-- 
2.43.0

