From de5b9c1a766b9d6bbb0866885d7c1712691ccc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 01/99] fix: range() with stop below start must be empty, not
 shrink the array below its header

---
 src/arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index cc0ff10..d65da2f 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -90,7 +90,7 @@ range_t rangeing(int start, int stop, int steps) {
 
 range_t range(int start, int stop) {
 	range_t arr = array();
-	int i, n = stop - start;
+	int i, n = stop > start ? stop - start : 0;
 	array_grow((arr), (n + 1));
 	for (i = start; i < stop; i++)
 		$append(arr, (intptr_t)i);
-- 
2.43.0


From bd0ff0e7e3c48e285024a84d11f45df6e4fa4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 02/99] fix: an array that grows must hand its new address back
 to the caller, and grow from zero capacity

---
 include/arrays.h | 27 ++++++++++++++-------------
 src/arrays.c     | 14 +++++++++-----
 src/async_tls.c  |  2 +-
 src/events.c     |  2 ++
 4 files changed, 26 insertions(+), 19 deletions(-)

diff --git a/include/arrays.h b/include/arrays.h
index 9463abe..d0b5f73 100644
--- a/include/arrays.h
+++ b/include/arrays.h
@@ -199,10 +199,11 @@ C_API array_t array(void);
 C_API array_t arrays(size_t, ...);
 C_API array_t data_ex(size_t, va_list);
 C_API array_t data_copy(array_t des, array_t src);
-C_API void data_append(array_t, void *);
+/* The `array` may be moved when it grows, always continue with the returned handle. */
+C_API array_t data_append(array_t, void *);
 C_API values_t data_pop(array_t arr);
 C_API values_t data_shift(array_t arr);
-C_API void data_append_item(array_t arr, ...);
+C_API array_t data_append_item(array_t arr, ...);
 C_API void data_delete(array_t);
 C_API void data_remove(array_t, size_t);
 
@@ -212,7 +213,7 @@ C_API tuple_t data_tuple(array_t);
 C_API array_t data_reset(array_t);
 C_API size_t data_size(array_t);
 C_API size_t data_capacity(array_t);
-C_API void data_reserve(array_t, size_t);
+C_API array_t data_reserve(array_t, size_t);
 C_API atomic_spinlock *data_lock(array_t);
 C_API size_t data_queue_size(void);
 C_API data_types data_type(void *self);
@@ -248,15 +249,15 @@ C_API range_t range_char(const char *text);
 #ifndef $append
 /* Collect references for global cleanup. */
 #define $gc(ptr) 						data_gc((void *)ptr)
-#define $append(arr, value) 			data_append((array_t)arr, (void *)value)
-#define $append_double(arr, value) 		data_append_item((array_t)arr, DATA_DOUBLE, (double)value)
-#define $append_unsigned(arr, value)	data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value)
-#define $append_signed(arr, value) 		data_append_item((array_t)arr, DATA_LLONG, (int64_t)value)
-#define $append_string(arr, value) 		data_append_item((array_t)arr, DATA_STRING, (char *)value)
-#define $append_func(arr, value) 		data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value)
-#define $append_char(arr, value) 		data_append_item((array_t)arr, DATA_CHAR, (char)value)
-#define $append_bool(arr, value) 		data_append_item((array_t)arr, DATA_BOOL, (bool)value)
-#define $append_short(arr, value) 		data_append_item((array_t)arr, DATA_SHORT, (short)value)
+#define $append(arr, value) 			((arr) = data_append((array_t)arr, (void *)value))
+#define $append_double(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_DOUBLE, (double)value))
+#define $append_unsigned(arr, value)	((arr) = data_append_item((array_t)arr, DATA_MAXSIZE, (size_t)value))
+#define $append_signed(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_LLONG, (int64_t)value))
+#define $append_string(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_STRING, (char *)value))
+#define $append_func(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_FUNC, (data_func_t)value))
+#define $append_char(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_CHAR, (char)value))
+#define $append_bool(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_BOOL, (bool)value))
+#define $append_short(arr, value) 		((arr) = data_append_item((array_t)arr, DATA_SHORT, (short)value))
 #define $copy(des, src) 				data_copy((array_t)des, (array_t)src)
 #define $remove(arr, index) 			data_remove((array_t)arr, index)
 #define $pop(arr) 						data_pop((array_t)arr)
@@ -267,7 +268,7 @@ C_API range_t range_char(const char *text);
 #define $delete(arr) 					data_delete((array_t)arr)
 #define $capacity(arr) 					data_capacity((array_t)arr)
 #define $lock(arr) 						data_lock((array_t)arr)
-#define $reserve(arr, cap)				data_reserve((array_t)arr, (size_t)cap)
+#define $reserve(arr, cap)				((arr) = data_reserve((array_t)arr, (size_t)cap))
 #endif
 
 #define trim_at(str, pos) (char *)((uintptr_t)(str) + (pos))
diff --git a/src/arrays.c b/src/arrays.c
index d65da2f..8e360b5 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -124,9 +124,11 @@ EVENTS_INLINE atomic_spinlock *data_lock(array_t v) {
 	return &array_mutex(v);
 }
 
-EVENTS_INLINE void data_reserve(array_t v, size_t capacity) {
+EVENTS_INLINE array_t data_reserve(array_t v, size_t capacity) {
 	if (v && capacity)
 		array_reserve(v, capacity);
+
+	return v;
 }
 
 EVENTS_INLINE void data_remove(array_t arr, size_t i) {
@@ -150,18 +152,19 @@ EVENTS_INLINE void data_delete(array_t arr) {
 	}
 }
 
-EVENTS_INLINE void data_append(array_t arr, void *value) {
+EVENTS_INLINE array_t data_append(array_t arr, void *value) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
 	size_t size, cv_cap__ = array_cap(arr);
 	if (cv_cap__ <= array_length(arr)) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 2;
 		array_grow(arr, size);
 	}
 
 	arr[array_length(arr)].object = value;
 	array_set_size(arr, array_length(arr) + 1);
+	return arr;
 }
 
 EVENTS_INLINE values_t data_pop(array_t arr) {
@@ -194,7 +197,7 @@ EVENTS_INLINE values_t data_shift(array_t arr) {
 	return data_values_empty->value;
 }
 
-void data_append_item(array_t arr, ...) {
+array_t data_append_item(array_t arr, ...) {
 	if (array_type(arr) == DATA_TUPLE)
 		throw(logic_error);
 
@@ -202,7 +205,7 @@ void data_append_item(array_t arr, ...) {
 	data_types n = DATA_INVALID;
 	size_t size, cv_cap__ = array_cap(arr), index = array_length(arr);
 	if (cv_cap__ <= index) {
-		size = cv_cap__ << 1;
+		size = cv_cap__ ? cv_cap__ << 1 : 2;
 		array_grow(arr, size);
 	}
 
@@ -229,6 +232,7 @@ void data_append_item(array_t arr, ...) {
 	}
 	va_end(ap);
 	array_set_size(arr, index + 1);
+	return arr;
 }
 
 EVENTS_INLINE array_t data_copy(array_t des, array_t src) {
diff --git a/src/async_tls.c b/src/async_tls.c
index 670714e..8c8f94a 100644
--- a/src/async_tls.c
+++ b/src/async_tls.c
@@ -422,7 +422,7 @@ static array_t thrd_return(array_t args, size_t numof, ...) {
 		$reset(args);
 		va_start(ap, numof);
 		for (i = 0; i < numof; i++)
-			data_append(args, va_arg(ap, void *));
+			args = data_append(args, va_arg(ap, void *));
 		va_end(ap);
 
 		return args;
diff --git a/src/events.c b/src/events.c
index f988d59..c2cf8e5 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2210,6 +2210,8 @@ array_t waitfor(waitgroup_t wg) {
 		t->group_active = false;
 		t->group_finish = true;
 		wgr = array();
+		/* shared with other threads, must not be moved while in use */
+		$reserve(wgr, $size(wg->group));
 		wg->results = wgr;
 		tasks_poster(wg);
 		foreach(co in wg->group) {
-- 
2.43.0


From 4cb334d351fc32d22477fbd8ea14f92512059b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 03/99] fix: trim() must not run below the start of an empty or
 all blank string

---
 src/arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 8e360b5..ca4b5fc 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -797,8 +797,8 @@ static EVENTS_INLINE char *ltrim(char *s) {
 
 static EVENTS_INLINE char *rtrim(char *s) {
 	char *back = s + strlen(s);
-	while (isspace(*--back));
-	*(back + 1) = '\0';
+	while (back > s && isspace(back[-1])) back--;
+	*back = '\0';
 	return s;
 }
 
-- 
2.43.0


From 59231688caebd4d22df278bfca3b134fd1fd0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 04/99] fix: str_cat_argv() must not append to the result of an
 earlier call, or overrun its buffer

---
 src/arrays.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/arrays.c b/src/arrays.c
index ca4b5fc..dff6224 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -433,6 +433,15 @@ char *str_cat_argv(int argc, char **argv, int start, char *delim) {
 	}
 
 	char *str = EVENTS_ARGS;
+	*str = '\0';
+	if (len == 0)
+		return str;
+
+	if (len > EVENTS_ARGS_LENGTH) {
+		errno = E2BIG;
+		return NULL;
+	}
+
 	for (i = start, j = 0; i < argc; ++i) {
 		if (i > start)
 			j = _str_append(j, delim, 1);
-- 
2.43.0


From f7ae355451d74b82929754177e5d22d8bc3af6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 05/99] fix: pathinfo() of a bare file name must report "." as
 its directory

---
 src/arrays.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index dff6224..85bb263 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1275,7 +1275,10 @@ fileinfo_t *pathinfo(char *filepath) {
 		file->filename = str_dup(basename(dir_name));
 		file->base = str_dup(basename((char *)file->dirname));
 #else
-		dirname(dir_name);
+		if (is_empty(str_memrchr(dir_name, '/', path_len)))
+			dir_name = ".";
+		else
+			dirname(dir_name);
 		file->dirname = dir_name;
 		file->base = basename((char *)file->dirname);
 		file->filename = basename((char *)filepath);
-- 
2.43.0


From f17aff4a094ab715ab2b3875ee2539b026690598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:22 +0000
Subject: [PATCH 06/99] fix: str_itoa() must keep the sign, convert the whole
 int64_t range, and not read past its digits

---
 src/arrays.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 85bb263..40fbc78 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1612,37 +1612,33 @@ char *str_itoa(int64_t x) {
 #if defined(__s390__) || defined(__s390x__)
 	return ___str_itoa((int)x, scope_local()->scrape, 10);
 #else
-	char *buf = scope_local()->scrape;
+	char *str = scope_init()->scrape, *buf = str;
 	// Handle negatives
 	bool neg = x < 0;
 	*buf = '-'; // Always write
 	buf += neg; // But advance only if negative
-#if defined(__APPLE__) || defined(__MACH__)
-	x = llabs(x);
-#else
-	x = abs(x);
-#endif
+	uint64_t u = neg ? 0 - (uint64_t)x : (uint64_t)x;
 
 	char tmp[20];
 	char *p = tmp + 20;
 
-	while (x >= 100) {
+	while (u >= 100) {
 		p -= 2;
-		utoa2p_ex(x % 100, p);
-		x /= 100;
+		utoa2p_ex(u % 100, p);
+		u /= 100;
 	}
 
 	p -= 2;
-	utoa2p_ex(x, p);
+	utoa2p_ex(u, p);
 
-	p += x < 10;
+	p += u < 10;
 
 	uint32_t len = tmp + 20 - p;
 
-	memcpy(buf, p, 20);
+	memcpy(buf, p, len);
 	buf[len] = '\0';
 
-	return buf;
+	return str;
 #endif
 }
 
-- 
2.43.0


From e16ec68dceda097227194acfe12e5abed730c302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 07/99] fix: uri_free() must release URIs that were rejected or
 have an unknown scheme

---
 src/arrays.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arrays.c b/src/arrays.c
index 40fbc78..601367b 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1230,7 +1230,7 @@ static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
 
 void uri_free(uri_t *uri) {
 	if ((data_type(uri) > DATA_GENERATOR && data_type(uri) < DATA_WATCH)
-		|| (data_type(uri) == -DATA_MAXCOUNTER) && uri->is_rejected) {
+		|| data_type(uri) == -DATA_MAXCOUNTER) {
 		if (uri->is_autofreeable)
 			return;
 
@@ -1305,6 +1305,7 @@ static uri_t *url_parse_ex2(char const *str, size_t length, bool *has_port, bool
 	if (autofree)
 		defer_free(ret);
 
+	ret->type = -DATA_MAXCOUNTER;
 	ret->is_rejected = false;
 	ret->is_autofreeable = autofree;
 
-- 
2.43.0


From 20550a82c1b01274bdb442f8b5b0bddcc318105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 08/99] fix: a catch_if block that leaves the exception
 unhandled must run once and not replace finally

---
 src/except.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 794e5b0..0967205 100644
--- a/src/except.c
+++ b/src/except.c
@@ -940,7 +940,8 @@ bool try_catching(char *type, ex_error_t *err, ex_context_t *ex_err) {
     if (ex_err->state == ex_throw_st) {
         try_updating_err(err, ex_err);
         if (str_is("_if", type)) {
-            status = true;
+            /* enter once, still unhandled in the final stage belongs to `finally` */
+            status = err->stage == ex_throw_st;
         } else if (is_empty(type) || (str_is(err->name, type))) {
             ex_err->state = ex_catch_st;
             status = true;
-- 
2.43.0


From 2e38a6bae017631e0f68fc0e607a79d90d326f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 09/99] fix: an unset or low addressed protected pointer must
 not stop the release of the others

---
 src/except.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/except.c b/src/except.c
index 0967205..7de9586 100644
--- a/src/except.c
+++ b/src/except.c
@@ -167,7 +167,7 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 		scope_unwind(ctx->data);
     } else {
 		while (p && p->type == DATA_EXCEPT_PROTECTED) {
-            if ((got_uncaught_exception = (temp == *p->ptr) || !is_ptr_usable(*p->ptr)))
+            if ((got_uncaught_exception = !is_empty(*p->ptr) && temp == *p->ptr))
                 break;
 
             if (*p->ptr) {
-- 
2.43.0


From 86627d090cfc0db7cd2cd5cf5cfec20985602577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 10/99] fix: caught() and try_message() must judge the
 exception being handled, not an earlier one kept in a scope

---
 src/except.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/except.c b/src/except.c
index 7de9586..889c924 100644
--- a/src/except.c
+++ b/src/except.c
@@ -964,28 +964,32 @@ EVENTS_INLINE bool try_finallying(ex_error_t *err, ex_context_t *ex_err) {
 }
 
 bool try_caught(const char *err) {
+	ex_context_t *ctx = ex_init();
 	ex_memory_t *scope = scope_local();
-	if (!is_empty(scope)) {
-		const char *exception = !is_empty(scope->_panic) ? scope->_panic : scope->err;
-		if ((scope->is_recovered = str_is(err, exception)))
-			ex_local()->state = ex_catch_st;
+	const char *exception = null;
+	/* the exception being handled, a `scope` could hold an earlier one */
+	if (!is_empty(ctx->ex))
+		exception = !is_empty(ctx->_panic) ? ctx->_panic : ctx->ex;
+	else if (!is_empty(scope))
+		exception = !is_empty(scope->_panic) ? scope->_panic : scope->err;
 
-		return scope->is_recovered;
-	}
+	bool status = str_is(err, exception);
+	if (!is_empty(scope))
+		scope->is_recovered = status;
 
-	const char *exception = !is_empty(ex_local()->_panic) ? ex_local()->_panic : ex_local()->ex;
-	if (str_is(err, exception)) {
-		ex_local()->state = ex_catch_st;
-		return true;
-	}
+	if (status)
+		ctx->state = ex_catch_st;
 
-	return false;
+	return status;
 }
 
 EVENTS_INLINE const char *try_message(void) {
+	ex_context_t *ctx = ex_init();
+	if (!is_empty(ctx->ex))
+		return !is_empty(ctx->_panic) ? ctx->_panic : ctx->ex;
+
 	ex_memory_t *scope = get_scope();
-	const char *exception = (const char *)(!is_empty(scope->_panic) ? scope->_panic : scope->err);
-	return exception == NULL ? ex_local()->ex : exception;
+	return (const char *)(!is_empty(scope->_panic) ? scope->_panic : scope->err);
 }
 
 EVENTS_INLINE ex_memory_t *scope_local(void) {
-- 
2.43.0


From a5e16fe39ab5d2a90b4f6f6bde5781f7208376cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 11/99] fix: guard_caught() in a guard with a fence() must
 recover from the exception and still leave the guard through its handler

---
 src/except.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/except.c b/src/except.c
index 889c924..bdf19ea 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1046,9 +1046,18 @@ bool scope_is_guarded(void) {
 }
 
 void scope_unwind(ex_memory_t *scope) {
-	if (is_empty(scope) || !is_ptr_usable(scope) || !is_data(scope->defer_arr))
+	if (is_empty(scope) || !is_ptr_usable(scope))
 		return;
 
+	if (!is_data(scope->defer_arr)) {
+		/* already unwound when thrown, because of an `fence`, apply what `guard_caught` recovered */
+		if (scope->status == DATA_GUARDED_STATUS && scope->is_recovered && !is_empty(scope->err)) {
+			scope->err = null;
+			ex_local()->state = ex_catch_st;
+		}
+		return;
+	}
+
 	bool defer_ran = false;
 	size_t i;
 
@@ -1177,10 +1186,15 @@ EVENTS_INLINE bool guard_caught(const char *err) {
 	ex_memory_t *scope = scope_local()->arena;
     const char *exception = (const char *)(!is_empty((void *)scope->_panic) ? scope->_panic : scope->err);
 #endif
-    if ((scope->is_recovered = str_is(err, exception)))
+    if (!str_is(err, exception))
+        return false;
+
+    scope->is_recovered = true;
+    /* unwinding inside of throw, the `guard` still has to be left through its handler */
+    if (!ex_local()->unstack)
         ex_local()->state = ex_catch_st;
 
-    return scope->is_recovered;
+    return true;
 }
 
 void guard_set(ex_context_t *ctx, const char *ex, const char *message) {
-- 
2.43.0


From ac4e826da546d96d181e7bfd7b0bc77fcb1ab007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 12/99] fix: defer, fence and defer_free must work on a scope
 that was already unwound

---
 src/events.c | 6 ++++++
 src/except.c | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/events.c b/src/events.c
index c2cf8e5..a28dcff 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1884,6 +1884,9 @@ bool defer_free(void *data) {
 	}
 
 	ex_memory_t *scope = get_scope();
+	if (is_empty(scope->defer_arr))
+		scope->defer_arr = array();
+
 	atomic_lock($lock(scope->defer_arr));
 	$append(scope->defer_arr, data);
 	atomic_unlock($lock(scope->defer_arr));
@@ -1918,6 +1921,9 @@ static int _defer_init(void *ptr) {
 	}
 
 	scope = get_scope();
+	if (is_empty(scope->defer_arr))
+		scope->defer_arr = array();
+
 	atomic_lock($lock(scope->defer_arr));
 	$append(scope->defer_arr, ptr);
 	atomic_unlock($lock(scope->defer_arr));
diff --git a/src/except.c b/src/except.c
index bdf19ea..77f9fcf 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1107,6 +1107,10 @@ int scope_deferred(ex_memory_t *scope, func_t func, void *data) {
 		deferred->func = func;
 		deferred->data = data;
 		deferred->type = DATA_DEFER;
+		/* an unwound scope can still be in use */
+		if (is_empty(scope->defer_arr))
+			scope->defer_arr = array();
+
 		atomic_lock($lock(scope->defer_arr));
 		$append(scope->defer_arr, deferred);
 		atomic_unlock($lock(scope->defer_arr));
-- 
2.43.0


From 497ac30bd2ea411955ffebb7d60f53d4d448e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 13/99] fix: fence() must release the fenced object, not what
 its first word points at, and keep working after its scope was unwound

---
 src/except.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/src/except.c b/src/except.c
index 77f9fcf..50e2cb2 100644
--- a/src/except.c
+++ b/src/except.c
@@ -1058,7 +1058,6 @@ void scope_unwind(ex_memory_t *scope) {
 		return;
 	}
 
-	bool defer_ran = false;
 	size_t i;
 
 	scope->is_recovered = is_empty(scope->err);
@@ -1068,7 +1067,6 @@ void scope_unwind(ex_memory_t *scope) {
 			if (is_data(arr.object)) {
 				$delete(arr.object);
 			} else if (type == DATA_DEFER) {
-				defer_ran = true;
 				defer_t *clean = (defer_t *)arr.object;
 				clean->type = DATA_INVALID;
 				if (clean->is_ptr)
@@ -1085,19 +1083,8 @@ void scope_unwind(ex_memory_t *scope) {
 	}
 
 	$delete(scope->defer_arr);
-	if (scope->is_protected && !is_empty(scope->protector) && !is_empty(scope->err)) {
-		scope->is_protected = false;
-		if (!defer_ran) {
-			scope->protector->func(*scope->protector->ptr);
-			*scope->protector->ptr = NULL;
-		}
-	}
-
+	scope->is_protected = false;
 	scope->defer_arr = null;
-	if (!is_empty(scope->protector)) {
-		ex_unprotected_ptr(scope->protector);
-		memset(scope->protector, 0, sizeof(ex_ptr_t));
-	}
 }
 
 int scope_deferred(ex_memory_t *scope, func_t func, void *data) {
@@ -1125,8 +1112,15 @@ void *fence(void *ptr, func_t func) {
 		return null;
 
 	ex_memory_t *scope = get_scope();
-	ex_protect_ptr(scope->protector, ptr, func);
 	scope->is_protected = true;
+	if (scope == scope_local()) {
+		/* have an exception leaving the current block unwind `scope` */
+		ex_context_t *ctx = ex_init();
+		ctx->data = (void *)scope;
+		ctx->prev = (void *)scope;
+		ctx->is_scoped = true;
+	}
+
 	scope_deferred(scope, func, ptr);
 
 	return ptr;
-- 
2.43.0


From 5bc6b20a8ce6100f95daf65597d8c765245ebe67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 14/99] fix: a fence() must not stop protected pointers of the
 same block from being released on throw

---
 src/except.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/except.c b/src/except.c
index 50e2cb2..52b3dd8 100644
--- a/src/except.c
+++ b/src/except.c
@@ -165,19 +165,19 @@ static void ex_unwind_stack(ex_context_t *ctx) {
 		exception_unwind_func(ctx->data);
 	} else if (ctx->is_unwind && ctx->is_scoped && ctx->data == (void *)scope_local()) {
 		scope_unwind(ctx->data);
-    } else {
-		while (p && p->type == DATA_EXCEPT_PROTECTED) {
-            if ((got_uncaught_exception = !is_empty(*p->ptr) && temp == *p->ptr))
-                break;
+	}
 
-            if (*p->ptr) {
-				p->type = DATA_INVALID;
-                p->func(*p->ptr);
-            }
+	while (p && p->type == DATA_EXCEPT_PROTECTED) {
+        if ((got_uncaught_exception = !is_empty(*p->ptr) && temp == *p->ptr))
+            break;
 
-            temp = *p->ptr;
-            p = p->next;
+        if (*p->ptr) {
+			p->type = DATA_INVALID;
+            p->func(*p->ptr);
         }
+
+        temp = *p->ptr;
+        p = p->next;
     }
 
     ctx->unstack = 0;
-- 
2.43.0


From a8defa907469c8a3acc03492f83e30e72ce913f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 15/99] fix: a task that keeps yielding must not keep sleeping
 tasks from waking

---
 src/events.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index a28dcff..c7c291f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1311,9 +1311,8 @@ static void *task_wait_system(void *v) {
 #ifdef _WIN32
 		__thrd()->active_timer++;
 #endif
-		/* let everyone else run */
-		while (task_yielding_active() > 0)
-			;
+		/* let everyone else run, once, a task that never waits must not keep others asleep */
+		(void)task_yielding_active();
 #ifdef _WIN32
 		__thrd()->active_timer--;
 #endif
-- 
2.43.0


From 7c19f188d9bad4f52d4af3139a5e5e9ae95114fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:32 +0000
Subject: [PATCH 16/99] fix: tasks_wait() must not queue a task that is already
 queued, nor end the run of its caller

---
 src/events.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index c7c291f..80fce83 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2289,9 +2289,7 @@ array_t tasks_wait(task_group_t *wg) {
 	}
 
 	tasks_t *worker, *t = active_task();
-	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && !t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2308,10 +2306,7 @@ array_t tasks_wait(task_group_t *wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2334,8 +2329,6 @@ array_t tasks_wait(task_group_t *wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From 1ad4703c23ea78a26fa45ab22f69d16bff0724c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:58 +0000
Subject: [PATCH 17/99] fix: delay() must return the time slept beyond four
 seconds too

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 80fce83..cfc4170 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1390,7 +1390,7 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 	add_timeout(__thrd()->running, __thrd()->running, ms, now);
 	task_switch(__thrd()->current_handle);
 
-	return (uint32_t)(events_nsec() - now) / 1000000;
+	return (uint32_t)((events_nsec() - now) / 1000000);
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-- 
2.43.0


From 2ec40dead18511017e0f350e73076968bfd2b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 18/99] fix: yielded() must not queue a generator that is
 queued already, it drops the tasks queued after it

---
 src/events.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index cfc4170..b7081b9 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1623,11 +1623,6 @@ values_t yielded(generator_t gen) {
 		return data_values_empty->value;
 
 	while (!gen->is_ready && !gen->context->halt) {
-		if (gen->context->status == TASK_SUSPENDED) {
-			tasklist_t *l = __thrd()->run_queue;
-			enqueue(l, gen->context);
-		}
-
 		active_info();
 		yield();
 	}
-- 
2.43.0


From 62250d41e0c5e0867cae95553519ae30ce06b403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:14 +0000
Subject: [PATCH 19/99] fix: a generator must keep its last value, and stay
 valid, until its creator is done with it

---
 src/events.c          | 20 +++++++++++++++++---
 src/events_internal.h |  1 +
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index b7081b9..2329dc3 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1113,6 +1113,9 @@ void deferred_unwind(array_t garbage) {
 					else
 						clean->_func(clean->value);
 					events_free(clean);
+				} else if (type == DATA_GENERATOR) {
+					if (--((generator_t)arr.object)->refs == 0)
+						events_free(arr.object);
 				} else if (type == DATA_OBJ || type == DATA_HASHTABLE || type == DATA_MAP) {
 					((data_object_t *)arr.object)->dtor(arr.object);
 				} else if (!is_empty(arr.object)) {
@@ -1164,6 +1167,9 @@ void task_awaitable(void) {
 	tasks_t *co = active_task();
 	param_t args = (param_t)co->args;
 	tasks_result_set(co, co->func(args));
+	if (co->is_generator)
+		co->generator->context = NULL;
+
 	data_delete(args);
 	deferred_unwind(co->garbage);
 	co->garbage = null;
@@ -1598,6 +1604,14 @@ generator_t generator(param_func_t fn, size_t num_of, ...) {
 			t->is_generator = true;
 			t->garbage = array();
 			$append(t->garbage, gen);
+
+			/* released when both have ended, the generator and the task that created it */
+			gen->refs = 2;
+			tasks_t *c = active_task();
+			if (is_empty(c->garbage))
+				c->garbage = array();
+
+			$append(c->garbage, gen);
 		}
 	}
 
@@ -1622,15 +1636,15 @@ values_t yielded(generator_t gen) {
 	if (data_type(gen) != DATA_GENERATOR)
 		return data_values_empty->value;
 
-	while (!gen->is_ready && !gen->context->halt) {
+	while (!gen->is_ready && gen->context != NULL) {
 		active_info();
 		yield();
 	}
 
-	if (data_type(gen) != DATA_GENERATOR || (gen->context->halt && !gen->is_ready))
+	active_task()->gen_id = gen->rid;
+	if (!gen->is_ready)
 		return data_values_empty->value;
 
-	active_task()->gen_id = gen->rid;
 	gen->is_ready = false;
 	return *gen->values;
 }
diff --git a/src/events_internal.h b/src/events_internal.h
index 8c55633..352814b 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -466,6 +466,7 @@ struct generator_s {
 	data_types type;
 	uint32_t rid;
 	bool is_ready;
+	int refs;
 	values_t values[1];
 	tasks_t *context;
 };
-- 
2.43.0


From 7b76d714df6ac0b94393d636a7837e1f79bb6c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:20 +0000
Subject: [PATCH 20/99] fix: results of tasks created by several threads at
 once must not be lost when the table grows

---
 src/events.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/events.c b/src/events.c
index 2329dc3..bbc7c7f 100644
--- a/src/events.c
+++ b/src/events.c
@@ -30,6 +30,8 @@ static volatile bool events_shutdown_set = false;
 static volatile bool events_tasks_started = false;
 static main_cb events_main_func = null;
 static array_t events_fsevents_tasks = null;
+/* number of results the current table has room for */
+static size_t events_results_size = 0;
 static int events_execute(events_t * loop, int max_wait);
 static tasks_t *atexit_ctr_c_task = null;
 sys_events_t sys_event = {0};
@@ -351,7 +353,11 @@ EVENTS_INLINE void events_deinit(void) {
 			events_free(r[i]);
 
 		atomic_init(&sys_event.results, NULL);
-		events_free((void *)r);
+		for (i = events_results_size; r != NULL; i /= 2) {
+			results_data_t *outgrown = (results_data_t *)r[i];
+			events_free((void *)r);
+			r = outgrown;
+		}
 	}
 
 	if (events_fsevents_tasks != null) {
@@ -1152,7 +1158,6 @@ static EVENTS_INLINE void tasks_result_set(tasks_t *co, void *data) {
 			results[co->rid]->is_terminated = true;
 			co->status = TASK_FINISH;
 		}
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
@@ -1657,12 +1662,24 @@ static EVENTS_INLINE void task_yielding(tasks_t *co) {
 }
 
 static results_data_t tasks_create_result(void) {
-	results_data_t result, *results;
-	size_t id = atomic_fetch_add(&sys_event.result_id_generate, 1);
+	results_data_t result, *results, *grown;
+	size_t id;
 	result = (results_data_t)events_malloc(sizeof(_results_data_t));
+	atomic_lock(&sys_event.lock);
+	id = atomic_load(&sys_event.result_id_generate);
 	results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
-	if (id % sys_event.queue_size == 0 || results == NULL)
-		results = events_realloc(results, (id + sys_event.queue_size) * sizeof(results[0]));
+	if (results == NULL || id == events_results_size) {
+		/* Other threads may still be reading the table outgrown, it's kept in
+		the last slot of the new one until `events_deinit`. */
+		size_t size = results == NULL ? sys_event.queue_size : events_results_size * 2;
+		grown = (results_data_t *)events_malloc((size + 1) * sizeof(results[0]));
+		if (results != NULL)
+			memcpy(grown, results, id * sizeof(results[0]));
+
+		grown[size] = (results_data_t)results;
+		events_results_size = size;
+		results = grown;
+	}
 
 	result->is_ready = false;
 	result->is_terminated = false;
@@ -1672,6 +1689,8 @@ static results_data_t tasks_create_result(void) {
 	result->type = DATA_RESULT;
 	results[id] = result;
 	atomic_store_explicit(&sys_event.results, results, memory_order_release);
+	atomic_store(&sys_event.result_id_generate, id + 1);
+	atomic_unlock(&sys_event.lock);
 	return result;
 }
 
@@ -1788,7 +1807,6 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 			if (has_result) {
 				results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 				results[t->rid]->tid = t->tid;
-				atomic_store_explicit(&sys_event.results, results, memory_order_release);
 			}
 
 			enqueue_tasks(t);
@@ -1840,7 +1858,6 @@ EVENTS_INLINE void task_set_canceled(uint32_t id) {
 	if ((int)id > 0 && id < (uint32_t)atomic_load(&sys_event.result_id_generate)) {
 		results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
 		results[id]->is_canceled = true;
-		atomic_store_explicit(&sys_event.results, results, memory_order_release);
 	}
 }
 
-- 
2.43.0


From 86aa4f3466602c579efa71e330348a92f42fff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:50 +0000
Subject: [PATCH 21/99] fix: a task that sleeps again must not wake a waiter
 that is no longer suspended

---
 src/events.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/events.c b/src/events.c
index bbc7c7f..08963a5 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1351,10 +1351,10 @@ static void *task_wait_system(void *v) {
 				t->ready = true;
 				enqueue(l, t);
 				if (t->sleeping != NULL) {
-					t = t->sleeping;
-					t->ready = true;
+					tasks_t *waiter = t->sleeping;
 					t->sleeping = NULL;
-					enqueue(l, t);
+					waiter->ready = true;
+					enqueue(l, waiter);
 				}
 			}
 		}
-- 
2.43.0


From 3284541d059287e58f91b8ea048ae81e13f46d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 22/99] fix: a try or guard block must stay with its task while
 other tasks run

---
 src/events.c          | 42 ++++++++++++++++++++++++++++++++++++++++++
 src/events_internal.h |  1 +
 2 files changed, 43 insertions(+)

diff --git a/src/events.c b/src/events.c
index 08963a5..fc484cf 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1428,6 +1428,36 @@ void async_wait(int fd, int rw) {
 	task_switch(__thrd()->current_handle);
 }
 
+/* What an `try` or `guard` block keeps in the thread, belongs to the task in that block,
+other tasks can run, and enter or leave their own, before an switch comes back. */
+typedef struct {
+	ex_context_t *context;
+	void *arena;
+	data_types status;
+	ex_setup_func setup;
+	ex_unwind_func unwind;
+} task_blocks_t;
+
+static EVENTS_INLINE void task_blocks_save(task_blocks_t *blocks) {
+	ex_memory_t *scope = scope_local();
+	blocks->context = ex_local();
+	blocks->arena = is_empty(scope) ? NULL : scope->arena;
+	blocks->status = is_empty(scope) ? DATA_RAII : scope->status;
+	blocks->setup = guard_setup_func;
+	blocks->unwind = guard_unwind_func;
+}
+
+static EVENTS_INLINE void task_blocks_restore(task_blocks_t *blocks) {
+	ex_memory_t *scope = scope_local();
+	ex_update(blocks->context);
+	if (!is_empty(scope)) {
+		scope->arena = blocks->arena;
+		scope->status = blocks->status;
+	}
+	guard_setup_func = blocks->setup;
+	guard_unwind_func = blocks->unwind;
+}
+
 #if defined(_WIN32) && defined(USE_FIBER)
 static EVENTS_INLINE void __stdcall fiber_thunk(void *func) {
 	((void (*)(void))func)();
@@ -1451,7 +1481,10 @@ void task_switch(tasks_t *handle) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	task_blocks_t blocks;
+	task_blocks_save(&blocks);
 	SwitchToFiber(handle->type->fiber);
+	task_blocks_restore(&blocks);
 }
 
 #elif defined(USE_SJLJ)
@@ -1463,6 +1496,8 @@ static void _spring_board(int ignored) {
 
 /* Switch to specified coroutine. */
 void task_switch(tasks_t *co) {
+	task_blocks_t blocks;
+	task_blocks_save(&blocks);
 	if (!sigsetjmp(((coroutine_t *)active_task())->sig_ctx, 0)) {
 		tasks_t *task_previous_handle = __thrd()->active_handle;
 		__thrd()->active_handle = co;
@@ -1474,6 +1509,7 @@ void task_switch(tasks_t *co) {
 
 		siglongjmp(((coroutine_t *)__thrd()->active_handle)->sig_ctx, 1);
 	}
+	task_blocks_restore(&blocks);
 }
 
 tasks_t *task_derive(void *co, size_t stack_size, bool is_thread) {
@@ -1548,8 +1584,11 @@ void task_switch(tasks_t *co) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	task_blocks_t blocks;
+	task_blocks_save(&blocks);
 	if (swapcontext((ucontext_t *)__thrd()->current_handle, (ucontext_t *)__thrd()->active_handle))
 		perror("Error! `swapcontext`");
+	task_blocks_restore(&blocks);
 }
 #else
 EVENTS_INLINE void task_switch(tasks_t *co) {
@@ -1564,7 +1603,10 @@ EVENTS_INLINE void task_switch(tasks_t *co) {
 	if (__thrd()->current_handle->status != TASK_SLEEPING)
 		__thrd()->current_handle->status = TASK_NORMAL;
 
+	task_blocks_t blocks;
+	task_blocks_save(&blocks);
 	coro_swap(__thrd()->active_handle, task_previous_handle);
+	task_blocks_restore(&blocks);
 }
 #endif
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 352814b..9462a5c 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -573,6 +573,7 @@ tasks_t *task_derive(void *memory, size_t heapsize, bool is_thread);
 /* Delete specified coroutine. */
 void task_delete(tasks_t *co);
 void task_switch(tasks_t *co);
+void ex_update(ex_context_t *context);
 uint32_t task_push(tasks_t *t, bool has_result);
 tasks_t *create_task(size_t heapsize, data_func_t func, void *args, bool is_thread, bool is_skipping);
 int results_tid(uint32_t rid);
-- 
2.43.0


From cf4ac1b15ae47b37e7e60a54fc65bae281b7da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 23/99] fix: leaving a guard must not switch off the guards of
 other threads

---
 include/except.h | 6 ++++++
 src/except.c     | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/include/except.h b/include/except.h
index b215fde..5018c58 100644
--- a/include/except.h
+++ b/include/except.h
@@ -429,8 +429,14 @@ C_API ex_unwind_func exception_unwind_func;
 C_API ex_terminate_func exception_terminate_func;
 C_API ex_terminate_func exception_ctrl_c_func;
 
+/* Set by the `guard` blocks of an thread, must not be seen by others. */
+#if defined(_WIN32) || defined(emulate_tls)
 C_API ex_setup_func guard_setup_func;
 C_API ex_unwind_func guard_unwind_func;
+#else
+C_API thread_local ex_setup_func guard_setup_func;
+C_API thread_local ex_unwind_func guard_unwind_func;
+#endif
 C_API ex_terminate_func guard_ctrl_c_func;
 C_API ex_terminate_func guard_terminate_func;
 
diff --git a/src/except.c b/src/except.c
index 52b3dd8..7c23506 100644
--- a/src/except.c
+++ b/src/except.c
@@ -78,8 +78,13 @@ ex_terminate_func exception_terminate_func = null;
 static bool exception_signal_set = false;
 static ex_memory_t *atexit_ctr_c_unwind = null;
 
+#if defined(_WIN32) || defined(emulate_tls)
 ex_setup_func guard_setup_func = null;
 ex_unwind_func guard_unwind_func = null;
+#else
+thread_local ex_setup_func guard_setup_func = null;
+thread_local ex_unwind_func guard_unwind_func = null;
+#endif
 ex_terminate_func guard_ctrl_c_func = null;
 ex_terminate_func guard_terminate_func = null;
 
-- 
2.43.0


From ba772a5a0e48eeddad926b002788ef84c3effb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 24/99] fix: deque_take() must not hand out an element that was
 stolen, nor take from an unused deque

---
 src/deque.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 94daaf3..2f49949 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -74,11 +74,16 @@ void deque_resize(events_deque_t *q) {
 }
 
 tasks_t *deque_take(events_deque_t *q) {
-	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed) - 1;
+	size_t b = atomic_load_explicit(&q->bottom, memory_order_relaxed);
 	size_t t = atomic_load_explicit(&q->top, memory_order_relaxed);
+	if (t >= b) /* Empty queue, `bottom` can not go below zero */
+		return TASK_EMPTY_T;
+
 	deque_array_t *a = (deque_array_t *)atomic_load_explicit(&q->array, memory_order_relaxed);
-	atomic_store_explicit(&q->bottom, b, memory_order_relaxed);
+	atomic_store_explicit(&q->bottom, --b, memory_order_relaxed);
 	atomic_thread_fence(memory_order_seq_cst);
+	/* An steal in between has to be seen here, or the same element is taken twice */
+	t = atomic_load_explicit(&q->top, memory_order_relaxed);
 	tasks_t *x;
 	if (t <= b) {
 		/* Non-empty queue */
-- 
2.43.0


From 2cfae249c4e482949707b275921ceb0c73dbb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:34 +0000
Subject: [PATCH 25/99] fix: growing a deque must not free the array others may
 be stealing from

---
 src/deque.c           | 14 +++++++++-----
 src/events_internal.h |  4 +++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/deque.c b/src/deque.c
index 2f49949..7cb3dbf 100644
--- a/src/deque.c
+++ b/src/deque.c
@@ -55,6 +55,7 @@ void deque_resize(events_deque_t *q) {
 	for (i = t; i < b; i++)
 		new->buffer[i % new_size] = a->buffer[i % old_size];
 
+	new->outgrown = a;
 	atomic_store_explicit(&q->array, new, memory_order_relaxed);
 	/* The question arises as to the appropriate timing for releasing memory
 	 * associated with the previous array denoted by *a. In the original Chase
@@ -65,12 +66,11 @@ void deque_resize(events_deque_t *q) {
 	 * In our context, the responsible deallocation of *a cannot occur at this
 	 * point, as another thread could potentially be in the process of reading
 	 * from it. Thus, we opt to abstain from freeing *a in this context,
-	 * resulting in memory leakage. It is worth noting that our expansion
+	 * it is released together with the queue. It is worth noting that our expansion
 	 * strategy for these queues involves consistent doubling of their size;
-	 * this design choice ensures that any leaked memory remains bounded by the
+	 * this design choice ensures that any memory kept remains bounded by the
 	 * memory actively employed by the functional queues.
 	 */
-	events_free(a);
 }
 
 tasks_t *deque_take(events_deque_t *q) {
@@ -137,12 +137,16 @@ tasks_t *deque_steal(events_deque_t *q) {
 }
 
 void deque_free(events_deque_t *q) {
-	deque_array_t *a = NULL;
+	deque_array_t *a = NULL, *outgrown;
 	if (q != NULL) {
 		a = atomic_get(deque_array_t *, &q->array);
-		if (a != NULL) {
+		if (a != NULL)
 			atomic_store(&q->array, NULL);
+
+		while (a != NULL) {
+			outgrown = a->outgrown;
 			events_free((void *)a);
+			a = outgrown;
 		}
 
 		memset(q, 0, sizeof(*q));
diff --git a/src/events_internal.h b/src/events_internal.h
index 9462a5c..69c230d 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -148,8 +148,10 @@ enum {
 typedef char events_cacheline_t[__ATOMIC_CACHE_LINE];
 
 make_atomic(tasks_t *, atomic_tasks_t)
-typedef struct {
+typedef struct deque_array_s {
 	atomic_size_t size;
+	/* outgrown, an steal can still be reading from it */
+	struct deque_array_s *outgrown;
 	atomic_tasks_t buffer[];
 } deque_array_t;
 make_atomic(deque_array_t *, atomic_task_array_t)
-- 
2.43.0


From 8fcd201191ffabc295f75e66e1e25a63b0494166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:03 +0000
Subject: [PATCH 26/99] fix: tasks handed to other threads must not be pushed
 by two threads at once, nor be read once they can be gone

---
 src/events.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/events.c b/src/events.c
index fc484cf..0d562bc 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1727,6 +1727,7 @@ static results_data_t tasks_create_result(void) {
 	result->is_terminated = false;
 	result->is_canceled = false;
 	result->id = id;
+	result->tid = __thrd()->thrd_id;
 	result->result.object = NULL;
 	result->type = DATA_RESULT;
 	results[id] = result;
@@ -1851,7 +1852,10 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 				results[t->rid]->tid = t->tid;
 			}
 
+			/* another thread may end, and release `task`, any time from now on */
+			uint32_t id = has_result ? t->rid : t->cid;
 			enqueue_tasks(t);
+			return id;
 		}
 	}
 
@@ -1875,8 +1879,6 @@ EVENTS_INLINE void accept_handler(client_cb connected, int client) {
 		tasks_t *t = create_task(Kb(32), (data_func_t)accept_client_handler, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2125,10 +2127,7 @@ uint32_t go(param_func_t fn, size_t num_of_args, ...) {
 		param_t params = data_ex(num_of_args, ap);
 		va_end(ap);
 
-		uint32_t rid = task_push(create_task(Kb(26), (data_func_t)fn, params, true, true), true);
-		events_deque_t *q = sys_event.local[results_tid(rid)];
-		atomic_flag_test_and_set(&q->started);
-		return rid;
+		return task_push(create_task(Kb(26), (data_func_t)fn, params, true, true), true);
 	}
 
 	panic("MUST call `events_create_pool()` at startup!");
@@ -2150,8 +2149,6 @@ void go_guard(size_t stacksize, guarded_func_t fn, defer_cb cleanup, void *any)
 		tasks_t *t = create_task(stacksize, (data_func_t)_os_guarded, params, true, true);
 		if (!is_empty(t)) {
 			task_push(t, false);
-			events_deque_t *q = sys_event.local[t->tid];
-			atomic_flag_test_and_set(&q->started);
 			yield();
 		} else {
 			$delete(params);
@@ -2550,9 +2547,11 @@ static void enqueue_tasks(tasks_t *t) {
 	atomic_thread_fence(memory_order_seq_cst);
 	atomic_lock(&sys_event.lock);
 	events_deque_t *queue = sys_event.local[t->tid];
-	atomic_unlock(&sys_event.lock);
+	/* any thread can be the one pushing, but only one at a time */
 	deque_push(queue, t);
+	atomic_unlock(&sys_event.lock);
 	atomic_fetch_add(&queue->available, 1);
+	atomic_flag_test_and_set(&queue->started);
 }
 
 static void __tasks_pool_main(param_t args) {
-- 
2.43.0


From 322381c466a8a2d859005df352757912fbc01634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:11 +0000
Subject: [PATCH 27/99] fix: waitgroups of any size, from any task or thread,
 one after another or at once, must run and return all their tasks once

---
 src/events.c | 78 +++++++++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/src/events.c b/src/events.c
index 0d562bc..b87178a 100644
--- a/src/events.c
+++ b/src/events.c
@@ -119,6 +119,7 @@ static void task_sleep_switch(void);
 static int tasks_schedulering(bool do_io);
 static void *task_wait_system(void *v);
 static void enqueue_tasks(tasks_t *t);
+static bool task_take(events_deque_t *queue);
 
 #include "deque.c"
 #include "asm.c"
@@ -1829,7 +1830,8 @@ uint32_t task_push(tasks_t *t, bool has_result) {
 		t->taken = false;
 
 		/* keep track of tasks in waitgroup */
-		if (c->group_active && c->task_group != NULL && !c->group_finish) {
+		if (c->group_active && c->task_group != NULL && !c->group_finish
+			&& c->task_group->threaded == t->is_threaded) {
 			is_group = true;
 			t->waiting = true;
 			$append(c->task_group->group, t);
@@ -2099,20 +2101,33 @@ static void tasks_poster(waitgroup_t wg) {
 		int c, i, k;
 		if (t->group_finish && t->task_group && !t->task_group->taken && t->task_group->threaded) {
 			t->task_group->taken = true;
-			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
+			for (i = 0; i < $size(sys_event.tasks_cpu_idx) && $size(wg->group) > 0; i++) {
 				k = sys_event.tasks_cpu_idx[i].u_int;
 				events_deque_t *q = sys_event.local[k];
-				for (c = 0; c < wg->capacity; c++) {
+				/* still has tasks of another waitgroup */
+				while (!is_empty(q->tasks))
+					yield();
+
+				if ($capacity(q->jobs) < wg->capacity)
+					$reserve(q->jobs, wg->capacity + 1);
+
+				results_data_t *results = (results_data_t *)atomic_load_explicit(&sys_event.results, memory_order_acquire);
+				for (c = 0; c < wg->capacity && $size(wg->group) > 0; c++) {
 					tasks_t *t = (tasks_t *)$pop(wg->group).object;
 					t->tid = k;
+					if (t->rid != NO_RESULT)
+						results[t->rid]->tid = k;
 					$append(q->jobs, t);
 				}
-				q->tasks = wg;
-			}
 
-			for (i = 0; i < $size(sys_event.tasks_cpu_idx); i++) {
-				events_deque_t *q = sys_event.local[(sys_event.tasks_cpu_idx[i].u_int)];
-				atomic_flag_test_and_set(&q->started);
+				if ($size(q->jobs) > 0) {
+					atomic_lock($lock(wg->group));
+					wg->count++;
+					atomic_unlock($lock(wg->group));
+					atomic_thread_fence(memory_order_seq_cst);
+					q->tasks = wg;
+					atomic_flag_test_and_set(&q->started);
+				}
 			}
 		}
 	}
@@ -2172,25 +2187,14 @@ waitgroup_t waitgroup(uint32_t capacity) {
 	atomic_thread_fence(memory_order_seq_cst);
 	waitgroup_t wg = NULL;
 	if (is_data(sys_event.tasks_cpu_idx) && $size(sys_event.tasks_cpu_idx) > 0) {
-		size_t i, active_cores = $size(sys_event.tasks_cpu_idx), resized = capacity / (active_cores + 1);
+		size_t active_cores = $size(sys_event.tasks_cpu_idx), resized = capacity / (active_cores + 1);
 		wg = task_group();
 		if ($capacity(wg->group) < capacity)
 			$reserve(wg->group, capacity + 1);
 
 		wg->threaded = true;
 		wg->capacity = resized;
-		wg->count = active_cores;
-
-		for (i = 0; i < active_cores; i++) {
-			events_deque_t *q = sys_event.local[sys_event.tasks_cpu_idx[i].max_size];
-			if (is_ptr_usable(q) && is_data(q->jobs)) {
-				if ($capacity(q->jobs) < resized) {
-					atomic_lock($lock(q->jobs));
-					$reserve(q->jobs, resized + 1);
-					atomic_unlock($lock(q->jobs));
-				}
-			}
-		}
+		wg->count = 0;
 	}
 
 	return wg;
@@ -2216,8 +2220,6 @@ static void __thrd_waitfor(events_deque_t *q) {
 	waitgroup_t wg = q->tasks;
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = wg->results;
-	bool is_sleeping = false;
-	q->tasks = NULL;
 
 	foreach(task in q->jobs) {
 		co = (tasks_t *)task.object;
@@ -2235,8 +2237,9 @@ static void __thrd_waitfor(events_deque_t *q) {
 
 	yield();
 	while ($size(q->jobs) > 0) {
+		task_take(q);
 		foreach(group in q->jobs) {
-			co = (tasks_t *)task.object;
+			co = (tasks_t *)group.object;
 			if (task_is_terminated(co)) {
 				$remove(q->jobs, igroup);
 				if (co->results != NULL)
@@ -2245,10 +2248,7 @@ static void __thrd_waitfor(events_deque_t *q) {
 				co->waiting = false;
 				task_delete(co);
 			} else {
-				if (co->status == TASK_NORMAL) {
-					enqueue(l, co);
-				} else if (co->status == TASK_SLEEPING) {
-					is_sleeping = true;
+				if (co->status == TASK_SLEEPING) {
 					co->sleeping = __thrd()->running;
 					suspend();
 				}
@@ -2260,7 +2260,9 @@ static void __thrd_waitfor(events_deque_t *q) {
 		igroup = 0;
 	}
 
-	__thrd()->task_count--;
+	/* ready for another waitgroup, this one is gone once everyone is done with it */
+	atomic_thread_fence(memory_order_seq_cst);
+	q->tasks = NULL;
 	atomic_lock($lock(wg->group));
 	wg->count--;
 	atomic_unlock($lock(wg->group));
@@ -2275,7 +2277,6 @@ array_t waitfor(waitgroup_t wg) {
 	tasks_t *worker, *t = active_task();
 	tasklist_t *l = __thrd()->run_queue;
 	array_t wgr = NULL;
-	bool is_sleeping = false;
 	if (t->group_active && t->task_group == wg && t->task_group->threaded) {
 		t->group_active = false;
 		t->group_finish = true;
@@ -2310,10 +2311,7 @@ array_t waitfor(waitgroup_t wg) {
 					worker->waiting = false;
 					task_delete(worker);
 				} else {
-					if (worker->status == TASK_NORMAL) {
-						enqueue(l, worker);
-					} else if (worker->status == TASK_SLEEPING) {
-						is_sleeping = true;
+					if (worker->status == TASK_SLEEPING) {
 						worker->sleeping = __thrd()->running;
 						suspend();
 					}
@@ -2325,8 +2323,16 @@ array_t waitfor(waitgroup_t wg) {
 			itask = 0;
 		}
 
-		while ((int)wg->count > 0)
+		for (;;) {
+			/* the last one to leave still holds the lock */
+			atomic_lock($lock(wg->group));
+			bool is_posted = (int)wg->count > 0;
+			atomic_unlock($lock(wg->group));
+			if (!is_posted)
+				break;
+
 			yield();
+		}
 
 		if ($size(wgr) == 0) {
 			$delete(wgr);
@@ -2340,8 +2346,6 @@ array_t waitfor(waitgroup_t wg) {
 		wg->group = NULL;
 		memset(wg, DATA_INVALID, sizeof(data_types));
 		events_free(wg);
-		if (!is_sleeping)
-			__thrd()->task_count--;
 	}
 
 	return wgr;
-- 
2.43.0


From 01cd6ca0147f1f949a6811ea337a33ba32dd8cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:56 +0000
Subject: [PATCH 28/99] fix: a promise must not be touched any longer once its
 result was handed over, and its errno must reach the one waiting

---
 src/events.c |  6 +++++-
 src/future.c | 22 ++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/events.c b/src/events.c
index b87178a..00ba217 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2714,9 +2714,13 @@ static int __future_wrapper(void *arg) {
 
 			if (worker && worker->func)
 				res->object = worker->func(worker->args);
+
+			/* once set, the promise is the waiting task's, to release or use again */
+			param_t args = worker->args;
+			worker->args = null;
 			promise_set(worker, res->object);
 
-			$delete(worker->args);
+			$delete(args);
 			if (is_data(res->object) && is_empty(scope_local()->local))
 				$delete(res->object);
 
diff --git a/src/future.c b/src/future.c
index d291fc5..18223a3 100644
--- a/src/future.c
+++ b/src/future.c
@@ -56,10 +56,19 @@ void promise_set(promise *p, void *res) {
 	atomic_flag_test_and_set(&p->done);
 }
 
-EVENTS_INLINE values_t promise_wait(promise *p) {
-	while (is_promise(p) && !atomic_flag_load(&p->done))
+/* Until the job is done, and the task that handed it over too. */
+static EVENTS_INLINE void promise_settled(promise *p) {
+	while (!atomic_flag_load(&p->done) || p->id)
 		yield_active_info();
 
+	if (p->erred)
+		errno = p->erred;
+}
+
+EVENTS_INLINE values_t promise_wait(promise *p) {
+	if (is_promise(p))
+		promise_settled(p);
+
 	return p->result->value;
 }
 
@@ -263,6 +272,9 @@ static void queue_work_handler(param_t args) {
 
 	if (job->erred)
 		errno = job->erred;
+
+	/* not in use here any longer, the promise can be released or used again */
+	job->id = 0;
 }
 
 promise *alloc_promise(void) {
@@ -387,7 +399,7 @@ promise *queue_work(future *thrd, param_func_t fn, size_t num_args, ...) {
 }
 
 EVENTS_INLINE bool queue_is_valid(promise *f) {
-	return is_promise(f) && !atomic_flag_load(&f->done);
+	return is_promise(f) && (!atomic_flag_load(&f->done) || f->id);
 }
 
 void queue_wait(array_t work, then_cb then) {
@@ -430,9 +442,7 @@ values_t queue_get(void *self) {
 	}
 
 	if (!is_empty(p)) {
-		while (!atomic_flag_load(&p->done))
-			yield_active_info();
-
+		promise_settled(p);
 		if (p->result->is_array == 1) {
 			defer_free(p);
 			defer_free(p->result->value.object);
-- 
2.43.0


From c99303b6480d19dfc1de93adc2604175f2beab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 29/99] fix: exceptions of concurrent futures must stay apart,
 and queue_get() of a future must not free into it

---
 src/events_internal.h |  2 ++
 src/future.c          | 17 ++++++++---------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/events_internal.h b/src/events_internal.h
index 69c230d..8b36c1f 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -192,6 +192,8 @@ struct _promise {
 	param_func_t func;
 	data_values_t result[1];
 	ex_memory_t *scope;
+	const char *ex;
+	const char *panic;
 	atomic_spinlock mutex;
 	atomic_flag done;
 };
diff --git a/src/future.c b/src/future.c
index 18223a3..fd2dde0 100644
--- a/src/future.c
+++ b/src/future.c
@@ -25,8 +25,8 @@ static EVENTS_INLINE data_values_t *promise_get(promise *p) {
 
 void promise_erred(promise *p, ex_context_t err) {
 	atomic_lock(&p->mutex);
-	p->scope->err = (void *)err.ex;
-	p->scope->_panic = err._panic;
+	p->ex = err.ex;
+	p->panic = err._panic;
 	atomic_unlock(&p->mutex);
 	atomic_flag_test_and_set(&p->done);
 }
@@ -109,7 +109,7 @@ static int _thrd_wrapper(void *arg) {
 #endif
 
 	scope_init()->local = (void *)f->promise->args;
-	f->promise->scope->err = null;
+	f->promise->ex = null;
 	f->promise->erred = 0;
 
 	guard {
@@ -156,9 +156,9 @@ values_t thrd_get(future_t f) {
 			if (f->promise->erred)
 				errno = f->promise->erred;
 
-			if (!is_empty(f->promise->scope->err)) {
-				ex_throw(f->promise->scope->err,
-					"unknown", 0, "_thrd_wrapper", f->promise->scope->_panic, f->promise->scope->backtrace);
+			if (!is_empty(f->promise->ex)) {
+				ex_throw(f->promise->ex,
+					"unknown", 0, "_thrd_wrapper", f->promise->panic, f->promise->scope->backtrace);
 			}
 		}
 
@@ -434,9 +434,8 @@ void queue_wait(array_t work, then_cb then) {
 values_t queue_get(void *self) {
 	promise *p = null;
 	if (is_future(self)) {
-		future_t f = (future_t)self;
-		if (is_promise(f->promise))
-			p = (promise *)f->promise;
+		thrd_wait((future_t)self, yield_active_info);
+		return thrd_get((future_t)self);
 	} else if (is_promise(self)) {
 		p = (promise *)self;
 	}
-- 
2.43.0


From d2bbe5ddfff7dbc44da480f0cd1acfae9a39fbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:16 +0000
Subject: [PATCH 30/99] fix: the loop of the main thread must not be destroyed
 a second time by its future thread

---
 src/events.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 00ba217..e2c72e4 100644
--- a/src/events.c
+++ b/src/events.c
@@ -770,6 +770,9 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 
 	if (__thrd()->is_main && __thrd()->pool == NULL) {
 		__thrd()->pool = events_create_future(loop);
+		/* the main thread runs, and destroys, this one */
+		if (__thrd()->pool != NULL)
+			__thrd()->pool->queue->loop = NULL;
 	}
 
 	return 0;
@@ -2696,7 +2699,6 @@ int events_create_pool(events_t *loop) {
 static int __future_wrapper(void *arg) {
 	future *work = (future *)arg;
 	events_deque_t *queue = work->queue;
-	events_t *loop = work->queue->loop;
 	values_t res[1] = {0};
 	int status = 0, tid = work->id;
 
@@ -2733,7 +2735,8 @@ static int __future_wrapper(void *arg) {
 	__thrd()->pool = NULL;
 	$delete(queue->jobs);
 	events_free(work);
-	events_destroy(loop);
+	if (queue->loop != NULL)
+		events_destroy(queue->loop);
 
 #if !defined(NO_RPMALLOC)
 	rpmalloc_thread_finalize(1);
-- 
2.43.0


From c0778764e96b57f92e14612116205c2c9647c442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:17 +0000
Subject: [PATCH 31/99] fix: spawn must watch the output of its process on the
 loop of its own thread, nobody polls the others

---
 src/async_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 7f891c7..4011f05 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -767,11 +767,11 @@ static void *spawning(param_t args) {
 	pid = exec((const char *)command, args[1].const_char_ptr, info);
 	if (info->io_func) {
 #ifndef _WIN32
-		status = events_add(futures_pool()->queue->loop, (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
+		status = events_add(event_loop(), (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
 #else
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
-			status = events_add(futures_pool()->queue->loop, (fds_t)pid, EVENTS_READ, 0, spawn_io, info);
+			status = events_add(event_loop(), (fds_t)pid, EVENTS_READ, 0, spawn_io, info);
 			ioThread = CreateThread(0, Kb(16), spawn_io_thread, info, 0, NULL);
 		}
 #endif
-- 
2.43.0


From 87d6ff2c2e715f9deae9ee1da45fa0a24a44a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 32/99] fix: thrd_get() must wait for its thread to end, or the
 exception and errno of the thread are lost

---
 src/future.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/future.c b/src/future.c
index fd2dde0..c984330 100644
--- a/src/future.c
+++ b/src/future.c
@@ -146,7 +146,7 @@ future_t thrd_async(thrd_func_t fn, size_t num_of_args, ...) {
 values_t thrd_get(future_t f) {
 	if (data_type(f) == DATA_FUTURE) {
 		data_values_t *r = promise_get(f->promise);
-		if (os_join(f->thread, 0, NULL) == 0) {
+		if (os_join(f->thread, -1, NULL) == 0) {
 			f->type = DATA_RESULT;
 			atomic_flag_clear(&f->promise->mutex);
 			atomic_flag_clear(&f->promise->done);
-- 
2.43.0


From 65e5ebc418db7bd1af9297cb5b8e73b9bc89be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 33/99] fix: an actor more than 2147 ms away must not overflow
 and come at once

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index e2c72e4..f4ddab6 100644
--- a/src/events.c
+++ b/src/events.c
@@ -899,7 +899,7 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 		: timeout;
 
 	if (actor_running != NULL) {
-		when = (size_t)(events_nsec() + ms * 1000000);
+		when = (size_t)(events_nsec() + (uint64_t)ms * 1000000);
 		for (t = loop->timers->head; t != NULL && t->alarmtime < when; t = t->next)
 			;
 
-- 
2.43.0


From 576e9bcd80e53e4cfb6a77cf8590675801f07892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 34/99] fix: an error on a descriptor must reach its callback,
 a writer of a full pipe nobody reads anymore was never told

---
 src/epoll.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 09a33f0..e3ac16a 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -162,7 +162,9 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 			&& (target->events & EVENTS_READWRITE) != 0) {
 			int revents = ((event->events & EPOLLIN) != 0 ? EVENTS_READ : 0)
 				| ((event->events & EPOLLOUT) != 0 ? EVENTS_WRITE : 0)
-				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0);
+				| ((event->events & EPOLLHUP) != 0 ? EVENTS_CLOSED : 0)
+				/* like select(2), an error makes ready whatever is waited for */
+				| ((event->events & EPOLLERR) != 0 ? (target->events & EVENTS_READWRITE) : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
 				if (!is_empty(buffer)) {
-- 
2.43.0


From 560095a0275a0b563c513e209a61cafdab33d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 35/99] fix: EVENTS_CLOSED must not contain EVENTS_TIMEOUT, a
 hangup was taken for a timeout and the unread data dropped

---
 include/events.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/events.h b/include/events.h
index 40d50fe..d644ac6 100644
--- a/include/events.h
+++ b/include/events.h
@@ -145,7 +145,8 @@ typedef union usa_s {
 #define EVENTS_READ 	1
 #define EVENTS_WRITE 	2
 #define EVENTS_TIMEOUT 	4
-#define EVENTS_CLOSED 	5
+/* includes `EVENTS_READ`, the end of file, but not `EVENTS_TIMEOUT` */
+#define EVENTS_CLOSED 	9
 #define EVENTS_PATHWATCH 	0x8000
 #define EVENTS_SIGNAL 	255
 #define EVENTS_ADD		0x40000000
-- 
2.43.0


From 130084eabb7a45b5a2156463cb26b609cb111ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 36/99] fix: events_add() of a descriptor that cannot be
 watched must report failure, not abort

---
 src/epoll.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index e3ac16a..0860958 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -121,8 +121,11 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	} else {
 		SET(EPOLL_CTL_MOD, 0);
 		if (epoll_ret != 0) {
-			assert(errno == ENOENT);
-			SET(EPOLL_CTL_ADD, 1);
+			if (errno == ENOENT)
+				SET(EPOLL_CTL_ADD, 0);
+
+			if (epoll_ret != 0)
+				return -1;
 		}
 	}
 
-- 
2.43.0


From d720dfa7f247033ba347d0d0fe7e709362083528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 37/99] fix: events_set_event() to nothing must not abort when
 only a timeout was set before

---
 src/epoll.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 0860958..658eca5 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -97,7 +97,7 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
-	if ((event & EVENTS_READWRITE) == target->events) {
+	if ((event & EVENTS_READWRITE) == (target->events & EVENTS_READWRITE)) {
 		return 0;
 	}
 
-- 
2.43.0


From 40e00bb2a4ee99e4f104d8a8b19c2f9e48663961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 38/99] fix: a signal that ends the wait of events_once() is no
 error condition, timers are still due

---
 src/epoll.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 658eca5..ba55a57 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -156,7 +156,8 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 	nevents = epoll_wait(loop->epfd, loop->events, sizeof(loop->events) / sizeof(loop->events[0]),
 		(ffd > 0 ? 0 : max_wait * 1000));
 	if (nevents == -1) {
-		return -1;
+		/* the callback of a signal ran, that is no error */
+		return errno == EINTR ? 0 : -1;
 	}
 	for (i = 0; i < nevents; ++i) {
 		struct epoll_event *event = loop->events + i;
-- 
2.43.0


From a105f9f24ce7a3692ebd77ad75c09a8dd2493fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 39/99] fix: a timeout set a while after the last events_once()
 must not expire that much too early

---
 src/events.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index f4ddab6..955d56d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -436,7 +436,8 @@ EVENTS_INLINE void events_set_timeout(fds_t sfd, int secs) {
 		target->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
 	}
 	if (secs != 0) {
-		delta = (loop->now + secs - loop->timeout.base_time)
+		/* `loop->now` is as old as the last `events_once()` */
+		delta = (time(NULL) + secs - loop->timeout.base_time)
 			/ loop->timeout.resolution;
 		if (delta >= EVENTS_TIMEOUT_VEC_SIZE) {
 			delta = EVENTS_TIMEOUT_VEC_SIZE - 1;
-- 
2.43.0


From 346c3f63c920e2c9368b22f8bfc033cfd608ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 40/99] fix: a timeout callback that deletes or re-arms another
 descriptor must not make its timeout come anyway

---
 src/events.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/events.c b/src/events.c
index 955d56d..df2c418 100644
--- a/src/events.c
+++ b/src/events.c
@@ -800,9 +800,9 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 				for (j = i * EVENTS_SHORT_BITS; vv != 0; j++, vv <<= 1) {
 					if (vv < 0) {
 						short v = vec[j];
-						assert(v != 0);
 						for (k = j * EVENTS_SHORT_BITS; v != 0; k++, v <<= 1) {
-							if (v < 0) {
+							/* an callback might have cleared, or moved, the timeout of an later one */
+							if (v < 0 && (vec[j] & ((unsigned short)SHRT_MIN >> (k % EVENTS_SHORT_BITS))) != 0) {
 								events_fd_t *fd = events_target(k);
 								assert(fd->loop_id == loop->loop_id);
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
-- 
2.43.0


From 367f7bc4c8c5db53b8f239c0a25b0a78ea22c57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 41/99] fix: an actor that repeated once, and then does not,
 must end, it kept the loop running forever

---
 src/events.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/events.c b/src/events.c
index df2c418..8f707eb 100644
--- a/src/events.c
+++ b/src/events.c
@@ -974,6 +974,8 @@ static int events_execute(events_t *loop, int max_wait) {
 	l = loop->timers;
 	while ((t = l->head) && now >= t->alarmtime) {
 		dequeue(l, t);
+		/* goes on only if its callback says so, again */
+		t->repeating = 0;
 		t->actor(t, t->args);
 		if (!t->repeating) {
 			events_free(t);
-- 
2.43.0


From 7755ff8476d1bbb1ab91bceef8fb2c5e75ead2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 42/99] fix: events_repeat_actor() of an actor still waiting
 must move it, not corrupt the list

---
 src/events.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/events.c b/src/events.c
index 8f707eb..5882945 100644
--- a/src/events.c
+++ b/src/events.c
@@ -934,8 +934,13 @@ static actor_t *events_actor_timeout(events_t *loop, int ms, actor_cb timer, voi
 }
 
 EVENTS_INLINE actor_t *events_repeat_actor(actor_t *actor, int ms) {
+	timerlist_t *l = actor->loop->timers;
 	actor->repeating = 1;
 	actor->loop->active_timers--;
+	/* still waiting, when called outside its callback */
+	if (actor->prev != NULL || actor->next != NULL || l->head == actor)
+		dequeue(l, actor);
+
 	return events_actor_timeout(actor->loop, ms, actor->actor, actor->args, actor);
 }
 
@@ -974,6 +979,7 @@ static int events_execute(events_t *loop, int max_wait) {
 	l = loop->timers;
 	while ((t = l->head) && now >= t->alarmtime) {
 		dequeue(l, t);
+		t->prev = t->next = NULL;
 		/* goes on only if its callback says so, again */
 		t->repeating = 0;
 		t->actor(t, t->args);
-- 
2.43.0


From 78a0cbef8a5715298ace6ebbf8390bb1f2cc620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 43/99] fix: events_tcp_timeout() of more than 2147483 ms must
 not overflow

---
 src/events.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 5882945..7bcd898 100644
--- a/src/events.c
+++ b/src/events.c
@@ -405,7 +405,7 @@ int events_tcp_timeout(fds_t fd, int milliseconds) {
 
 	memset(&tv, 0, sizeof(tv));
 	tv.tv_sec = milliseconds / 1000;
-	tv.tv_usec = (milliseconds * 1000) % 1000000;
+	tv.tv_usec = (milliseconds % 1000) * 1000;
 #endif
 	r1 = setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, (const char *)&tv, sizeof(tv));
 	r2 = setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, (const char *)&tv, sizeof(tv));
-- 
2.43.0


From 8281df8fe0a71fd81835a7689da74651fe43ba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 44/99] fix: a signal must not disturb the descriptor with the
 same number, nor abort when deleted outside its callback

---
 src/events.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 7bcd898..e3e8318 100644
--- a/src/events.c
+++ b/src/events.c
@@ -562,9 +562,10 @@ int events_add(events_t *loop, fds_t sfd, int event, int timeout_in_secs,
 	if (event == EVENTS_SIGNAL) {
 		if ((sig_idx = events_add_signal(fd, callback, cb_arg)) >= 0) {
 			loop->signal_handlers = events_signals();
-			loop->active_signals++;
+			if (!target->signal_set)
+				loop->active_signals++;
+
 			loop->signal_handlers[sig_idx].loop = loop;
-			target->loop = loop;
 			target->signal_idx = sig_idx;
 			target->signal_set = true;
 			return 0;
@@ -623,10 +624,11 @@ int events_del(fds_t sfd) {
 	if (target->signal_set) {
 		signal_handlers = events_signals();
 		if (signal_handlers[target->signal_idx].sig == fd
-			&& signal_handlers[target->signal_idx].is_running) {
+			&& (signal_handlers[target->signal_idx].is_running || target->loop_id == 0)) {
+			loop = signal_handlers[target->signal_idx].loop;
 			events_del_signal(fd, target->signal_idx);
 			target->signal_set = false;
-			target->loop->active_signals--;
+			loop->active_signals--;
 			return 0;
 		}
 	}
@@ -955,7 +957,7 @@ EVENTS_INLINE actor_t *events_actor(events_t *loop, int ms, actor_cb timer, void
 EVENTS_INLINE events_t *events_loop(fds_t sfd) {
 	assert(EVENTS_IS_INITD_AND_FD_IN_RANGE(socket2fd(sfd)));
 	events_fd_t *target = events_target(socket2fd(sfd));
-	return (target->signal_set)
+	return (target->signal_set && (target->loop_id == 0 || events_signals()[target->signal_idx].is_running))
 		? events_signals()[target->signal_idx].loop : target->loop;
 }
 
-- 
2.43.0


From da0bce5d05812017dc160045009d009da1af6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 45/99] fix: a second signal during the callback of another
 must wait its turn, or run in its own thread, not end the process

---
 src/os_unix.c | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index d37cd46..a825615 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -18,7 +18,6 @@
 static void clear_pseudo_events(void);
 static sigset_t events_siglock, events_siglock_all;
 static struct sigaction events_sig_sa = {0}, events_sig_osa = {0};
-static volatile sig_atomic_t signal_running = false;
 static sys_signal_t events_sig[max_event_sig] = {0};
 volatile sig_atomic_t events_got_signal = 0;
 
@@ -646,14 +645,10 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	return 0;
 }
 
+/* all signals wait, in this thread, while the callback of one runs, see `sa_mask` */
 static void events_sig_handler(int sig) {
-	if (signal_running)
-		exit(1);
-
-	signal_running = true;
 	int i;
 
-	events_sigblock;
 	events_got_signal++;
 	for (i = 0; i < max_event_sig; i++) {
 		if (events_sig[i].sig == sig && events_sig[i].proc != NULL) {
@@ -664,8 +659,6 @@ static void events_sig_handler(int sig) {
 			break;
 		}
 	}
-	events_sigunblock;
-	signal_running = false;
 }
 
 void events_del_signal(int sig, int i) {
@@ -706,7 +699,7 @@ int events_add_signal(int sig, sig_cb proc, void *data) {
 	 */
 	events_sig_sa.sa_handler = events_sig_handler;
 	events_sig_sa.sa_flags = SA_RESTART;
-	if (sigemptyset(&events_sig_sa.sa_mask) != 0) {
+	if (sigfillset(&events_sig_sa.sa_mask) != 0) {
 		cerr("Cannot setup handler for signal no (%d)"CLR_LN, sig);
 		events_sigunblock;
 		return -1;
-- 
2.43.0


From b0a13edf47a0f71503b16a6981d24b687e107080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:05 +0000
Subject: [PATCH 46/99] fix: a signal added again keeps its entry, and is still
 running if it is, deleting it then must not delete a descriptor

---
 src/os_unix.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index a825615..c68e8c7 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -682,6 +682,11 @@ sys_signal_t *events_signals(void) {
 int events_add_signal(int sig, sig_cb proc, void *data) {
 	int i;
 	for (i = 0; i < max_event_sig; i++) {
+		if (events_sig[i].proc && events_sig[i].sig == sig)
+			break;
+	}
+
+	for (i = i < max_event_sig ? i : 0; i < max_event_sig; i++) {
 		if (!events_sig[i].proc || events_sig[i].sig == sig)
 			break;
 	}
@@ -711,7 +716,6 @@ int events_add_signal(int sig, sig_cb proc, void *data) {
 		events_sig[i].proc = proc;
 		events_sig[i].data = data;
 		events_sig[i].loop = NULL;
-		events_sig[i].is_running = false;
 		events_sig[i].sig = sig;
 	}
 	events_sigunblock;
-- 
2.43.0


From 719793b4824b8f955d62c3613bbc9fe15d824181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 47/99] fix: two tasks that wait on the same descriptor, to
 read and to write, must both be woken

---
 src/events.c          | 52 ++++++++++++++++++++++++++++++++++++++-----
 src/events_internal.h | 14 +++++++-----
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/events.c b/src/events.c
index e3e8318..b82aeca 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1420,16 +1420,37 @@ EVENTS_INLINE uint32_t delay(uint32_t ms) {
 }
 
 static void wait_cb(fds_t fd, int event, void *arg) {
-	tasks_t *t = (tasks_t *)arg;
+	events_fd_t *target = events_target(socket2fd(fd));
 	tasklist_t *l = __thrd()->run_queue;
-	t->ready = true;
-	enqueue(l, t);
+	int i, bits = 0;
+	(void)arg;
+	for (i = 0; i < 2; i++) {
+		tasks_t *t = NULL;
+		/* a hangup is for both */
+		if ((event & ~(i ? EVENTS_READ : EVENTS_WRITE)) != 0
+			&& (t = task_dequeue(&target->waiting[i])) != NULL) {
+			t->ready = true;
+			enqueue(l, t);
+		}
+
+		if (target->waiting[i].head != NULL)
+			bits |= i ? EVENTS_WRITE : EVENTS_READ;
+	}
+
+	if (bits != 0) {
+		events_set_event(fd, bits);
+		return;
+	}
+
 	events_del(fd);
-	events_target(fd)->events = event;
+	target->events = event;
 }
 
 void async_wait(int fd, int rw) {
 	int bits = 0;
+	events_fd_t *target;
+	tasklist_t *l;
+	tasks_t *t = __thrd()->running;
 	switch (rw) {
 		case 'r':
 			bits |= EVENTS_READ;
@@ -1439,7 +1460,28 @@ void async_wait(int fd, int rw) {
 			break;
 	}
 
-	events_add(__thrd()->loop, fd, bits, 0, wait_cb, (void *)__thrd()->running);
+	if (!EVENTS_IS_INITD_AND_FD_IN_RANGE(fd)) {
+		yield();
+		return;
+	}
+
+	target = events_target(socket2fd(fd));
+	/* another task might wait for the other direction, or its turn */
+	if (target->callback == wait_cb && events_is_registered(__thrd()->loop, fd)) {
+		bits |= events_get_event(__thrd()->loop, fd);
+		events_del(fd);
+	} else {
+		memset(target->waiting, 0, sizeof(target->waiting));
+	}
+
+	/* what cannot be watched, an ordinary file, is always ready */
+	if (events_add(__thrd()->loop, fd, bits, 0, wait_cb, NULL) != 0) {
+		yield();
+		return;
+	}
+
+	l = &target->waiting[rw == 'w'];
+	enqueue(l, t);
 	task_switch(__thrd()->current_handle);
 }
 
diff --git a/src/events_internal.h b/src/events_internal.h
index 8b36c1f..58a2fa3 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -227,6 +227,12 @@ make_atomic(results_data_t *, atomic_results_t)
 make_atomic(results_data_t, atomic_results_t)
 #endif
 
+/* scheduler queue struct */
+typedef struct tasklist_s {
+	tasks_t *head;
+	tasks_t *tail;
+} tasklist_t;
+
 struct events_fd_s {
   /* use accessors! */
   /* TODO adjust the size to match that of a cache line */
@@ -244,6 +250,8 @@ struct events_fd_s {
 	void *cb_arg;
 	void *user_data;
 	events_t *loop;
+	/* tasks in `async_wait()`, to read, and to write */
+	tasklist_t waiting[2];
 	uds_t uds;
 	udp_t udp;
 	tls_s *tls;
@@ -507,12 +515,6 @@ struct execinfo_s {
 	exec_io_cb io_func;
 };
 
-/* scheduler queue struct */
-typedef struct tasklist_s {
-	tasks_t *head;
-	tasks_t *tail;
-} tasklist_t;
-
 struct ex_memory_s {
 	void *arena;
 	data_types status;
-- 
2.43.0


From 5760ddfbd4161f04b5a9606d7615a37a1fc05d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 48/99] fix: async_connect() must report why it failed, in
 errno

---
 src/async_io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 4011f05..6bbbd04 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -287,12 +287,13 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	sn = (int)sizeof(n);
 	getsockopt(fd, SOL_SOCKET, SO_ERROR, (char *)&n, &sn);
 	if (n == 0)
-		errno = os_geterror();
+		n = os_geterror();
 
 	if (is_unix)
 		events_free(uds);
 
 	close(fd);
+	errno = n;
 	return -1;
 }
 
-- 
2.43.0


From ccf409ad77a826eb51c2f4017607b72998e25177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 49/99] fix: async_bind() without an address must bind all
 interfaces, as documented, it failed

---
 src/async_io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 6bbbd04..9b6f228 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -114,7 +114,9 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	if (!is_unix) {
 		char host[ARRAY_SIZE] = {0};
-		if (port)
+		if (is_empty(address))
+			snprintf(host, sizeof(host) - 1, "0.0.0.0:%d", port);
+		else if (port)
 			snprintf(host, sizeof(host) - 1, "%s:%d", address, port);
 		else
 			snprintf(host, sizeof(host) - 1, "%s", address);
-- 
2.43.0


From c9825979bbab23cf51f55981f460ebe6b7c713e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 50/99] fix: async_bind() must take an IPv6 address, and not
 leave address reuse to chance

---
 src/async_io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 9b6f228..a8b15f9 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -106,7 +106,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	fds_t fd;
 	int err, proto, n = 0, ip_family = 0;
 	u_saddr_t usa;
-	socklen_t sn;
+	socklen_t sn = sizeof(n);
 	uds_t uds = (protocol == -1)
 		? (uds_t)events_calloc(1, sizeof(struct af_unix_s))
 		: null;
@@ -128,7 +128,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
-	if ((fd = socket((is_unix ? AF_UNIX : AF_INET),
+	if ((fd = socket((is_unix ? AF_UNIX : usa.sa.sa_family),
 		proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
 		if (is_unix)
-- 
2.43.0


From 99684ce972eb1e4c01a5870627ade3287973d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 51/99] fix: an address without port was taken for a port, a
 port for port 1, and one out of range for another address

---
 src/async_io.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index a8b15f9..b5d100b 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -406,23 +406,40 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		&len) // NOLINT(cert-err34-c) 'sscanf' used to convert a string
 			  // to an integer value, but function will not report
 			  // conversion errors; consider using 'strtol' instead
-		== 5) {
+		== 5 && (size_t)len == ptrlen) {
 		/* Bind to a specific IPv4 address, e.g. 192.168.1.5:8080 */
+		if (a > 255 || b > 255 || c > 255 || d > 255 || port > 0xffff)
+			return 0;
+
 		dst->sin.sin_addr.s_addr =
 			htonl((a << 24) | (b << 16) | (c << 8) | d);
 		dst->sin.sin_port = htons((uint16_t)port);
 		*ip_version = 4;
 		return 1;
 	} else if (sscanf(host, "[%49[^]]]:%u%n", buf, &port, &len) == 2
-		&& ((size_t)len <= ptrlen)
+		&& ((size_t)len == ptrlen) && port <= 0xffff
 		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
 		/* IPv6 address, examples: see above */
 		/* dst->sin6.sin6_family = AF_INET6; already set by http_inet_pton */
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if ((portUL = strtoul(host, &endptr, 0) && port <= 0xffff)
-		&& (host != endptr)) {
+	} else if (len = 0, sscanf(host, "%u.%u.%u.%u%n", &a, &b, &c, &d, &len) == 4
+		&& (size_t)len == ptrlen) {
+		/* No port, any will do, e.g. 192.168.1.5 */
+		if (a > 255 || b > 255 || c > 255 || d > 255)
+			return 0;
+
+		dst->sin.sin_addr.s_addr =
+			htonl((a << 24) | (b << 16) | (c << 8) | d);
+		*ip_version = 4;
+		return 1;
+	} else if (len = 0, sscanf(host, "[%49[^]]]%n", buf, &len) == 1 && (size_t)len == ptrlen
+		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
+		*ip_version = 6;
+		return 1;
+	} else if ((portUL = strtoul(host, &endptr, 0)) <= 0xffff
+		&& (host != endptr) && *endptr == '\0') {
 		len = (int)(endptr - host);
 		port = (uint16_t)portUL;
 		/* If only port is specified, bind to IPv4, INADDR_ANY */
@@ -450,7 +467,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		str_lcpy(hostname, host, hostnlen + 1);
 		if (async_inet_pton(AF_INET, hostname, &dst->sin, sizeof(dst->sin), 1)) {
 			if (sscanf(cb + 1, "%u%n", &port, &len)
-				== 1) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
+				== 1 && cb[1 + len] == '\0' && port <= 0xffff) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
 						// string to an integer value, but function will not
 						// report conversion errors; consider using 'strtol'
 						// instead
@@ -460,7 +477,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 				return 1;
 			}
 		} else if (async_inet_pton(AF_INET6, hostname, &dst->sin6, sizeof(dst->sin6), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len) == 1) {
+			if (sscanf(cb + 1, "%u%n", &port, &len) == 1 && cb[1 + len] == '\0' && port <= 0xffff) {
 				*ip_version = 6;
 				dst->sin6.sin6_port = htons((uint16_t)port);
 				len += (int)(hostnlen + 1);
-- 
2.43.0


From 85babb239364de9206e9d0f7d697b83adf4fec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 52/99] fix: an address with scheme, or in brackets, must not
 crash, change the text given, or get lost

---
 src/arrays.c | 46 +++++++++++++++-------------------------------
 1 file changed, 15 insertions(+), 31 deletions(-)

diff --git a/src/arrays.c b/src/arrays.c
index 601367b..e157bfe 100644
--- a/src/arrays.c
+++ b/src/arrays.c
@@ -1150,44 +1150,31 @@ static EVENTS_INLINE const void *str_memrchr(const void *s, int c, size_t n) {
 
 #define ip_class(p) ((*(unsigned char*)(p))>>6)
 char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
-	unsigned char addr[4];
-	char *p, **tmp = null, buf[ARRAY_SIZE] = {0};
+	unsigned char addr[4] = {0};
+	char *p;
 	int i, x;
 
-	if ((i = str_pos(name, "//")) > 3) {
-		snprintf(buf, ARRAY_SIZE, "%s", (const char *)((uintptr_t)name + (i + 2)));
-		name = buf;
-	}
+	if ((i = str_pos(name, "//")) > 3)
+		name += i + 2;
 
+	/* the text given stays as it is */
+	name = autofree ? str_dup(name) : str_dup_ex(name);
 	if ((i = str_pos(name, "]:")) > 3) {
-		*port = atoi(trim_at(name, i + 2));
+		*port = atoi(name + i + 2);
 		name[i + 1] = '\0';
-		return autofree ? str_dup(name) : str_dup_ex(name);
+		return name;
 	} else if ((i = str_pos(name, ":")) > 6) {
-		tmp = str_split_ex(name, ":", null);
-		*port = atoi(tmp[1]);
-		name = tmp[0];
-		if (autofree) {
-			defer_free(tmp);
-		} else {
-			i = snprintf(buf, ARRAY_SIZE, "%s", tmp[0]);
-			events_free(tmp);
-			tmp = null;
-			if (i)
-				tmp = (char **)str_dup_ex(buf);
-		}
-	} else if (!str_is_empty((const char *)buf)) {
-		tmp = (char **)str_dup(buf);
-		name = (char *)tmp;
+		*port = atoi(name + i + 1);
+		name[i] = '\0';
 	}
 
 	p = name;
 	for (i = 0; i < 4 && *p; i++) {
 		x = strtoul(p, &p, 0);
 		if (x < 0 || x >= 256)
-			return (autofree) ? name : (char *)tmp;
+			return name;
 		if (*p != '.' && *p != 0)
-			return (autofree) ? name : (char *)tmp;
+			return name;
 		if (*p == '.')
 			p++;
 		addr[i] = x;
@@ -1205,22 +1192,19 @@ char *str_parseip(char *name, uint32_t *ip, int *port, bool autofree) {
 				addr[2] = 0;
 				addr[1] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return name;
 			break;
 		case 2:
 			if (i == 3) {
 				addr[3] = addr[2];
 				addr[2] = 0;
 			} else if (i != 4)
-				return (autofree) ? name : (char *)tmp;
+				return name;
 			break;
 	}
 
 	*ip = *(uint32_t *)addr;
-	if (is_empty(tmp) && autofree)
-		return name;
-
-	return autofree && !is_empty(tmp) ? tmp[0] : (char *)tmp;
+	return name;
 }
 
 static EVENTS_INLINE char *uri_dup(const void *src, size_t len) {
-- 
2.43.0


From 3540862b70890c50ddac103cfbb0cde5a74c61ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 53/99] fix: async_sendto() must give the whole IPv6 address

---
 src/async_udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index d0dee28..466d4d4 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -58,7 +58,7 @@ void udp_to(int fd, char *addr, unsigned int flags) {
 int async_sendto(int fd, void *buf, int n) {
 	int m;
 	udp_t packet = events_target(fd)->udp;
-	socklen_t client_len = sizeof(sockaddr_t);
+	socklen_t client_len = is_empty(packet->addr) || packet->addr->sa.sa_family != AF_INET6 ? sizeof(packet->addr->sin) : sizeof(packet->addr->sin6);
 
 	while ((m = sendto(socket2fd(fd), (const char *)buf, n, packet->flags, (sockaddr_t *)packet->addr, client_len)) < 0
 		&& os_geterror() == EAGAIN) {
-- 
2.43.0


From 5be5ccf3a3ae2d8cffb2578ff155b678de255db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 54/99] fix: the answer to a datagram must go to who sent it,
 and receiving must not use the previous one, it may be gone

---
 src/async_udp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 466d4d4..c51937b 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -69,7 +69,8 @@ int async_sendto(int fd, void *buf, int n) {
 
 int udp_send(udp_t packet, void *buf, int n) {
 	int m;
-	u_saddr_t *addr = events_get_sockaddr(fd2socket(packet->socket));
+	/* who sent it, others might have sent something since */
+	u_saddr_t *addr = !is_empty(packet->addr) ? packet->addr : events_get_sockaddr(fd2socket(packet->socket));
 	socklen_t client_len = addr->sa.sa_family == AF_INET6 ? sizeof(addr->sin6) : sizeof(addr->sin);
 
 	while ((m = sendto(fd2socket(packet->socket), (const char *)buf, n,
@@ -120,7 +121,6 @@ udp_t udp_recv(int fd) {
 				memcpy(client->message, buf, m);
 				client->message_set = true;
 				client->type = DATA_UDP;
-				events_target(fd)->udp = client;
 				errno = 0;
 			} else {
 				if (!is_empty(client->message))
-- 
2.43.0


From 7df30975d1a7e8f0b67116a4b4c251b40fb7a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 55/99] fix: udp_recv() must not use more stack than a task
 has, it overwrote 30 kB of other memory

---
 src/async_udp.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index c51937b..3b404be 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -96,13 +96,17 @@ int async_recvfrom(int fd, void *buf, int n, unsigned int flags) {
 udp_t udp_recv(int fd) {
 	int m;
 	uchar *ip;
-	char buf[Kb(48)] = {0}, buf1[64] = {0};
+	/* the stack of a task is smaller than what a datagram might need */
+	char *buf = events_malloc(Kb(64));
 	udp_t client = null, packet = events_target(fd)->udp;
 	packet->addr = events_get_sockaddr(fd2socket(fd));
 	u_saddr_t *usa = packet->addr;
 	socklen_t client_len = usa->sa.sa_family == AF_INET6 ? sizeof(usa->sin6) : sizeof(usa->sin);
 
-	while ((m = recvfrom(socket2fd(fd), buf, sizeof(buf), packet->flags, &usa->sa, &client_len)) < 0
+	if (is_empty(buf))
+		return null;
+
+	while ((m = recvfrom(socket2fd(fd), buf, Kb(64), packet->flags, &usa->sa, &client_len)) < 0
 		&& os_geterror() == EAGAIN) {
 		async_wait(fd, 'r');
 	}
@@ -130,11 +134,12 @@ udp_t udp_recv(int fd) {
 					events_free(client->addr);
 
 				events_free(client);
-				return null;
+				client = null;
 			}
 		}
 	}
 
+	events_free(buf);
 	return client;
 }
 
-- 
2.43.0


From a6e48dad3e3f962abc7da07fd420bc893b964044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 56/99] fix: udp_recv() must have room for an IPv6 sender, it
 was cut off while udp_to() resolved an address

---
 src/async_udp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index 3b404be..df61f34 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -101,7 +101,8 @@ udp_t udp_recv(int fd) {
 	udp_t client = null, packet = events_target(fd)->udp;
 	packet->addr = events_get_sockaddr(fd2socket(fd));
 	u_saddr_t *usa = packet->addr;
-	socklen_t client_len = usa->sa.sa_family == AF_INET6 ? sizeof(usa->sin6) : sizeof(usa->sin);
+	/* `udp_to()` might have another address in the making, room is needed for any */
+	socklen_t client_len = sizeof(usa->storage);
 
 	if (is_empty(buf))
 		return null;
-- 
2.43.0


From 3186332bdd8e6a7d20b9109a25aea9a3d0baefc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 57/99] fix: an empty datagram must not be taken for a failure,
 the caller was given no packet

---
 src/async_udp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_udp.c b/src/async_udp.c
index df61f34..cb6d339 100644
--- a/src/async_udp.c
+++ b/src/async_udp.c
@@ -112,7 +112,7 @@ udp_t udp_recv(int fd) {
 		async_wait(fd, 'r');
 	}
 
-	if (m > 0) {
+	if (m >= 0) {
 		errno = ENOMEM;
 		client = events_calloc(1, sizeof(struct udp_packet_s));
 		if (!is_empty(client)) {
-- 
2.43.0


From a39e79c54ebff4d9df2d51f3eab7c6df3c1cf5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 58/99] fix: numbers in an address beyond 2^32 were taken
 modulo 2^32

---
 src/async_io.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index b5d100b..687045f 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -397,7 +397,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 	len = 0;
 	/* Test for different ways to format this string */
 	if (sscanf(host,
-		"%u.%u.%u.%u:%u%n",
+		"%3u.%3u.%3u.%3u:%5u%n",
 		&a,
 		&b,
 		&c,
@@ -416,7 +416,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		dst->sin.sin_port = htons((uint16_t)port);
 		*ip_version = 4;
 		return 1;
-	} else if (sscanf(host, "[%49[^]]]:%u%n", buf, &port, &len) == 2
+	} else if (sscanf(host, "[%49[^]]]:%5u%n", buf, &port, &len) == 2
 		&& ((size_t)len == ptrlen) && port <= 0xffff
 		&& async_inet_pton(AF_INET6, buf, &dst->sin6, sizeof(dst->sin6), 0)) {
 		/* IPv6 address, examples: see above */
@@ -424,7 +424,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 		dst->sin6.sin6_port = htons((uint16_t)port);
 		*ip_version = 6;
 		return 1;
-	} else if (len = 0, sscanf(host, "%u.%u.%u.%u%n", &a, &b, &c, &d, &len) == 4
+	} else if (len = 0, sscanf(host, "%3u.%3u.%3u.%3u%n", &a, &b, &c, &d, &len) == 4
 		&& (size_t)len == ptrlen) {
 		/* No port, any will do, e.g. 192.168.1.5 */
 		if (a > 255 || b > 255 || c > 255 || d > 255)
@@ -466,7 +466,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 
 		str_lcpy(hostname, host, hostnlen + 1);
 		if (async_inet_pton(AF_INET, hostname, &dst->sin, sizeof(dst->sin), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len)
+			if (sscanf(cb + 1, "%5u%n", &port, &len)
 				== 1 && cb[1 + len] == '\0' && port <= 0xffff) { // NOLINT(cert-err34-c) 'sscanf' used to convert a
 						// string to an integer value, but function will not
 						// report conversion errors; consider using 'strtol'
@@ -477,7 +477,7 @@ int async_parse_addr(char *host, u_saddr_t *dst, int *ip_version) {
 				return 1;
 			}
 		} else if (async_inet_pton(AF_INET6, hostname, &dst->sin6, sizeof(dst->sin6), 1)) {
-			if (sscanf(cb + 1, "%u%n", &port, &len) == 1 && cb[1 + len] == '\0' && port <= 0xffff) {
+			if (sscanf(cb + 1, "%5u%n", &port, &len) == 1 && cb[1 + len] == '\0' && port <= 0xffff) {
 				*ip_version = 6;
 				dst->sin6.sin6_port = htons((uint16_t)port);
 				len += (int)(hostnlen + 1);
-- 
2.43.0


From b788b4822eb64ee8ae2bde54fae63db0cd22f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 59/99] fix: reading the output of a spawned process must not
 use more stack than there is, and end the text

---
 src/async_io.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 687045f..d235f61 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -765,10 +765,17 @@ static void spawn_io(fds_t fd, int events, void *arg) {
 	execinfo_t *info = (execinfo_t *)arg;
 	spawn_cb func = info->io_func;
 #ifndef _WIN32
-	char data[Kb(32)] = {0};
+	/* the stack this runs on is smaller than the buffer */
+	char *data = events_malloc(Kb(32));
 	int count;
-	if ((count = read((fds_t)info->read_output[0], data, sizeof(data))) > 0)
+	if (is_empty(data))
+		return;
+
+	if ((count = read((fds_t)info->read_output[0], data, Kb(32) - 1)) > 0) {
+		data[count] = '\0';
 		func((fds_t)info->write_input[1], count, data);
+	}
+	events_free(data);
 #else
 	func((fds_t)info->write_input[1], (size_t)events, info->buffer);
 #endif
-- 
2.43.0


From a71ccd46310fc0305c6ac329043b92db3371f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 60/99] fix: all output of a spawned process must arrive, that
 left at its end, or beyond a full pipe, was lost

---
 src/async_io.c | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index d235f61..e18bfb8 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -761,22 +761,33 @@ EVENTS_INLINE int fs_events_cancel(uint32_t rid) {
 	return fsevents_stop(rid);
 }
 
-static void spawn_io(fds_t fd, int events, void *arg) {
-	execinfo_t *info = (execinfo_t *)arg;
-	spawn_cb func = info->io_func;
 #ifndef _WIN32
+static int spawn_read(execinfo_t *info) {
+	spawn_cb func = info->io_func;
 	/* the stack this runs on is smaller than the buffer */
 	char *data = events_malloc(Kb(32));
 	int count;
 	if (is_empty(data))
-		return;
+		return TASK_ERRED;
 
 	if ((count = read((fds_t)info->read_output[0], data, Kb(32) - 1)) > 0) {
 		data[count] = '\0';
 		func((fds_t)info->write_input[1], count, data);
+		errno = 0;
 	}
 	events_free(data);
+	return count;
+}
+#endif
+
+static void spawn_io(fds_t fd, int events, void *arg) {
+	execinfo_t *info = (execinfo_t *)arg;
+#ifndef _WIN32
+	/* it closed its output */
+	if (spawn_read(info) == 0)
+		events_del(fd);
 #else
+	spawn_cb func = info->io_func;
 	func((fds_t)info->write_input[1], (size_t)events, info->buffer);
 #endif
 }
@@ -794,7 +805,10 @@ static void *spawning(param_t args) {
 	pid = exec((const char *)command, args[1].const_char_ptr, info);
 	if (info->io_func) {
 #ifndef _WIN32
-		status = events_add(event_loop(), (fds_t)info->read_output[1], EVENTS_WRITE, 0, spawn_io, info);
+		/* the ends of the process, kept open here there would be no end of its output */
+		close((uintptr_t)info->read_output[1]);
+		close((uintptr_t)info->write_input[0]);
+		status = events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info);
 #else
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
@@ -815,10 +829,14 @@ static void *spawning(param_t args) {
 		info->context = NULL;
 		if (info->io_func) {
 #ifndef _WIN32
-			events_del((fds_t)info->read_output[1]);
+			if (events_is_registered(event_loop(), (fds_t)info->read_output[0]))
+				events_del((fds_t)info->read_output[0]);
+
+			/* what is left from before its end */
+			while (spawn_read(info) > 0)
+				;
+
 			close((uintptr_t)info->read_output[0]);
-			close((uintptr_t)info->read_output[1]);
-			close((uintptr_t)info->write_input[0]);
 			close((uintptr_t)info->write_input[1]);
 #else
 			CloseHandle(ioThread);
-- 
2.43.0


From ac3b62b25187b4836b8ba5baf94323419dd769a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 61/99] fix: the ends of its pipes given to a spawned process
 must block, and not be kept open by others

---
 src/async_io.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index e18bfb8..0108eb5 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -924,17 +924,21 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 			events_set_nonblocking(info->error[1]);
 		}
 #else
-		if (pipe2(_2fd(info->write_input), O_NONBLOCK)
-			|| pipe2(_2fd(info->read_output), O_NONBLOCK)) {
+		/* the ends of the process itself must block, and no other process must keep them open */
+		if (pipe2(_2fd(info->write_input), O_CLOEXEC)
+			|| pipe2(_2fd(info->read_output), O_CLOEXEC)) {
 			perror("pipe2");
 			return NULL;
 		}
+		events_set_nonblocking(info->write_input[1]);
+		events_set_nonblocking(info->read_output[0]);
 
 		if (!is_empty(env)) {
-			if (pipe2(_2fd(info->error), O_NONBLOCK)) {
+			if (pipe2(_2fd(info->error), O_CLOEXEC)) {
 				perror("pipe2");
 				return NULL;
 			}
+			events_set_nonblocking(info->error[0]);
 		}
 #endif
 	}
-- 
2.43.0


From fdfc61133f24ff010163479daa60514aebca26b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 62/99] fix: an exit status is no signal number

---
 src/async_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 0108eb5..3164953 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -847,7 +847,7 @@ static void *spawning(param_t args) {
 		}
 
 		if (info->exit_func)
-			info->exit_func(status, status);
+			info->exit_func(status, status < 0 ? -status : 0);
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
 	}
-- 
2.43.0


From 032b4fd32e3ab82982858a7f28e7a3c591197300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 63/99] fix: the error pipe of a spawned process must be closed
 at its end

---
 src/async_io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index 3164953..51dfc21 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -838,6 +838,10 @@ static void *spawning(param_t args) {
 
 			close((uintptr_t)info->read_output[0]);
 			close((uintptr_t)info->write_input[1]);
+			if (info->error[0] != inherit) {
+				close((uintptr_t)info->error[0]);
+				close((uintptr_t)info->error[1]);
+			}
 #else
 			CloseHandle(ioThread);
 			CloseHandle(info->write_input[1]);
-- 
2.43.0


From 0b4025a0ff2365698f095ea4e720dc078410c916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 64/99] fix: the end of a process must not close the descriptor
 with its number

---
 src/os_unix.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c68e8c7..c19a676 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -345,11 +345,14 @@ int os_read(int fd, char *buf, size_t len) {
 
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
-	int r, can_clear = events_valid_fd(fd);
+	int r = 0, can_clear = events_valid_fd(fd);
 	if (can_clear)
 		events_free_fd(fd);
 
-	r = close(events_get_fd(fd));
+	/* of a process the table has its id, no descriptor */
+	if (!can_clear || fdTable[fd].type != FD_CHILD)
+		r = close(events_get_fd(fd));
+
 	if (can_clear) {
 		fdTable[fd].type = (fd_types)FD_UNUSED;
 		fdTable[fd].fd = TASK_ERRED;
-- 
2.43.0


From bfd17968353dbc6e91115e46c9e638a408ffdd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 65/99] fix: a process without its own environment must get
 that of its parent, as documented

---
 src/os_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c19a676..5da789f 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -511,6 +511,7 @@ void events_free_fd(int pseudo) {
 	}
 }
 
+extern char **environ;
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	process_t p = vfork();
 	if (p != 0) {
@@ -572,7 +573,7 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	if (info->workdir != NULL && 0 != chdir(info->workdir))
 		goto end;
 
-	execve(filename, (char **)info->argv, (char **)info->env);
+	execve(filename, (char **)info->argv, (info->env == NULL ? environ : (char **)info->env));
 
 end:
 	_exit(255);
-- 
2.43.0


From f0b9a10ccce259d963c9e24469646b1c8cba792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 66/99] fix: exec_addenv() must end the text, and take values
 longer than 2 kB

---
 src/async_io.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 51dfc21..a9701e3 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -860,8 +860,9 @@ static void *spawning(param_t args) {
 }
 
 char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
-	char *k, *v, buf[Kb(2)] = {0}, *data = env;
-	int i, len;
+	char *k, *v, *data = env;
+	size_t len;
+	int i;
 	va_list ap;
 
 	if (num_pairs > 0) {
@@ -870,10 +871,10 @@ char *exec_addenv(char *env, size_t *size, uint32_t num_pairs, ...) {
 			/* Copy VARIABLE=VALUE;\0 string into the free space */
 			k = va_arg(ap, char *);
 			v = va_arg(ap, char *);
-			len = snprintf(buf, sizeof(buf), "%s=%s;", k, v);
+			len = strlen(k) + strlen(v) + 2;
+			data = events_realloc(data, *size + len + 1);
+			snprintf(data + *size, len + 1, "%s=%s;", k, v);
 			*size += len;
-			data = events_realloc(data, *size);
-			memcpy(data + (*size - len), buf, len);
 		}
 		va_end(ap);
 	}
-- 
2.43.0


From 32cb463eddba79c5bdec9190782b0012cd826a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:00 +0000
Subject: [PATCH 67/99] fix: exec() without arguments must not pass an empty
 one to the process

---
 src/os_unix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 5da789f..1e943be 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -606,7 +606,8 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 }
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
-	char *cmd_arg = str_cat_ex((args == NULL ? 2 : 3), command, ",", args);
+	/* no arguments are none, not an empty one */
+	char *cmd_arg = str_cat_ex((args == NULL || *args == '\0' ? 1 : 3), command, ",", args);
 	if (info == NULL)
 		info = exec_info(NULL, false, inherit, inherit, inherit);
 
-- 
2.43.0


From 263b83505ccee1d91fc005878243d6d5c5c3e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 68/99] fix: fs_close() must close a descriptor, though one of
 its number was closed before

---
 src/async_io.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index a9701e3..8cc9009 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -639,11 +639,14 @@ EVENTS_INLINE ssize_t fs_sendfile(int fd_out, int fd_in, off_t *offset, size_t l
 
 EVENTS_INLINE int fs_close(int fd) {
 	future *thrd = futures_pool();
+#ifdef _WIN32
 	if (thrd->last_fd == fd) {
 		thrd->last_fd = TASK_ERRED;
 		return TASK_ERRED;
 	}
+#endif
 
+	/* the system knows if it is open, its number can be that of one closed before */
 	int r = queue_get(queue_work(thrd, _os_close, 1, casting(fd))).integer;
 	thrd->last_fd = fd;
 	fd = TASK_ERRED;
-- 
2.43.0


From 065258b20ef72f9cb8866a8083cefb35ab1e14a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 69/99] fix: fs_writefile() and fs_touch() must tell that a
 file cannot be opened

---
 src/async_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/async_io.c b/src/async_io.c
index 8cc9009..ec041d5 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -725,7 +725,7 @@ int fs_writefile(const char *path, char *text) {
 			return len;
 	}
 
-	return task_code();
+	return TASK_ERRED;
 }
 
 char *fs_readfile(const char *path) {
-- 
2.43.0


From 1cd04eabc6d2c6bab635fad5d7e0f40edfdca2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 70/99] fix: copyfile() must copy all of a file, that
 sendfile() did in parts was cut

---
 src/os_unix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 1e943be..2a200ca 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1468,10 +1468,12 @@ int copyfile(const char *source, const char *destination) {
 	result = fstat(input, &file_stat);
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
+		/* it adds to `copied` itself */
 		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
-		copied += written;
 		if (written == -1) {
 			result = -1;
+		} else if (written == 0) {
+			break;
 		}
 	}
 
-- 
2.43.0


From c7976d755261d5ecb89705ca2767fdea98ab9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:51 +0000
Subject: [PATCH 71/99] fix: copyfile() onto the file itself must not empty it

---
 src/os_unix.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/os_unix.c b/src/os_unix.c
index 2a200ca..90f2019 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1441,6 +1441,14 @@ int copyfile(const char *source, const char *destination) {
 	if ((input = open(source, O_RDONLY)) == -1) {
 		return -1;
 	}
+	// A file copied onto itself would be emptied
+	struct stat from_stat = {0}, to_stat = {0};
+	if (fstat(input, &from_stat) == 0 && stat(destination, &to_stat) == 0
+		&& from_stat.st_dev == to_stat.st_dev && from_stat.st_ino == to_stat.st_ino) {
+		close(input);
+		errno = EINVAL;
+		return -1;
+	}
 	// Create new or truncate existing at destination
 	if ((output = creat(destination, 0660)) == -1) {
 		close(input);
-- 
2.43.0


From ce522dd7e51231085a6ae797a840b90cb3dec834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 72/99] fix: an empty result of a promise used again kept half
 of the one before

---
 src/future.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/future.c b/src/future.c
index c984330..8a043f9 100644
--- a/src/future.c
+++ b/src/future.c
@@ -282,7 +282,7 @@ promise *alloc_promise(void) {
 	if (!is_empty(f = (promise *)events_malloc(_mem_align_up(sizeof(promise), 2)))) {
 		f->args = null;
 		f->result->is_array = false;
-		f->result->value.integer = 0;
+		f->result->value.object = null;
 		atomic_flag_clear(&f->mutex);
 		atomic_flag_clear(&f->done);
 		f->type = DATA_PROMISE;
@@ -307,7 +307,7 @@ promise *promise_work(promise *f, param_func_t fn, size_t num_args, ...) {
 			f->args = args;
 			f->func = fn;
 			f->result->extended = null;
-			f->result->value.integer = 0;
+			f->result->value.object = null;
 			f->result->is_array = false;
 			atomic_flag_clear(&f->mutex);
 			atomic_flag_clear(&f->done);
-- 
2.43.0


From a0a0a5b50c389f0343c46bdc5643ff6690411b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 73/99] fix: rpposix_memalign() and three more allocator
 functions were declared but not there

extern inline makes no function in the gnu89 dialect this is built in.
---
 src/rpmalloc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index ca12460..133f56a 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -3005,7 +3005,7 @@ rpaligned_alloc(size_t alignment, size_t size) {
 	return _rpmalloc_aligned_allocate(heap, alignment, size);
 }
 
-extern inline RPMALLOC_ALLOCATOR void *
+extern RPMALLOC_ALLOCATOR void *
 rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	size_t total;
 #if ENABLE_VALIDATE_ARGS
@@ -3031,11 +3031,11 @@ rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	return block;
 }
 
-extern inline RPMALLOC_ALLOCATOR void *rpmemalign(size_t alignment, size_t size) {
+extern RPMALLOC_ALLOCATOR void *rpmemalign(size_t alignment, size_t size) {
 	return rpaligned_alloc(alignment, size);
 }
 
-extern inline int rpposix_memalign(void **memptr, size_t alignment, size_t size) {
+extern int rpposix_memalign(void **memptr, size_t alignment, size_t size) {
 	if (memptr)
 		*memptr = rpaligned_alloc(alignment, size);
 	else
@@ -3068,7 +3068,7 @@ extern size_t rpmalloc_usable_size(void *ptr) {
 	return 0;
 }
 
-extern inline void
+extern void
 rpmalloc_thread_collect(void) {}
 
 void
-- 
2.43.0


From f6de822c1435d687170046c83ce46e5d5eef3d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:49 +0000
Subject: [PATCH 74/99] fix: the allocator must refuse sizes that overflow, not
 grant a small block

---
 src/rpmalloc.c | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index 133f56a..37e8ec9 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -502,6 +502,9 @@ _Static_assert((SPAN_HEADER_SIZE &(SPAN_HEADER_SIZE - 1)) == 0, "Span header siz
 #define MAX_ALLOC_SIZE            (((size_t)-1) - _memory_span_size)
 #endif
 
+//! No larger request can be met, anything up to it can have a header and be rounded up
+#define MAX_REQUEST_SIZE          (((size_t)-1) >> 1)
+
 #define pointer_offset(ptr, ofs) (void*)((char*)(ptr) + (ptrdiff_t)(ofs))
 #define pointer_diff(first, second) (ptrdiff_t)((const char*)(first) - (const char*)(second))
 
@@ -2168,10 +2171,20 @@ static void *_rpmalloc_allocate_large(heap_t *heap, size_t size) {
 static void *_rpmalloc_allocate_huge(heap_t *heap, size_t size) {
 	rpmalloc_assert(heap, "No thread heap");
 	_rpmalloc_heap_cache_adopt_deferred(heap, 0);
+	if (size > MAX_REQUEST_SIZE) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	size += SPAN_HEADER_SIZE;
 	size_t num_pages = size >> _memory_page_size_shift;
 	if (size & (_memory_page_size - 1))
 		++num_pages;
+	if (num_pages > (uint32_t)-1) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	size_t align_offset = 0;
 	span_t *span = (span_t *)_rpmalloc_mmap(num_pages * _memory_page_size, &align_offset);
 	if (!span)
@@ -2216,6 +2229,11 @@ static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t s
 	}
 #endif
 
+	if (size > MAX_REQUEST_SIZE) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	if ((alignment <= SPAN_HEADER_SIZE) && ((size + SPAN_HEADER_SIZE) < _memory_medium_size_limit)) {
 		// If alignment is less or equal to span header size (which is power of two),
 		// and size aligned to span header size multiples is less than size + alignment,
@@ -2267,6 +2285,11 @@ static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t s
 	if (extra_pages > num_pages)
 		num_pages = 1 + extra_pages;
 
+	if (num_pages > (uint32_t)-1 / 2) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	size_t original_pages = num_pages;
 	size_t limit_pages = (_memory_span_size / _memory_page_size) * 2;
 	if (limit_pages < (original_pages * 2))
@@ -2482,6 +2505,11 @@ static void _rpmalloc_deallocate(void *p) {
 
 //! Reallocate the given block to the given size
 static void *_rpmalloc_reallocate(heap_t * heap, void *p, size_t size, size_t oldsize, unsigned int flags) {
+	if (size > MAX_REQUEST_SIZE) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	if (p) {
 		//Grab the span using guaranteed span alignment
 		span_t *span = (span_t *)((uintptr_t)p & _memory_span_mask);
@@ -2966,6 +2994,11 @@ rpcalloc(size_t num, size_t size) {
 	}
 #endif
 #else
+	if (size && num > MAX_REQUEST_SIZE / size) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	total = num * size;
 #endif
 	heap_t *heap = get_thread_heap();
@@ -3023,6 +3056,11 @@ rpaligned_calloc(size_t alignment, size_t num, size_t size) {
 	}
 #endif
 #else
+	if (size && num > MAX_REQUEST_SIZE / size) {
+		errno = ENOMEM;
+		return 0;
+	}
+
 	total = num * size;
 #endif
 	void *block = rpaligned_alloc(alignment, total);
-- 
2.43.0


From 3a080565e6d5d29723016c8daac3803c7ea328c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 75/99] fix: threads that allocate first at the same time must
 not use a half set up allocator

---
 src/rpmalloc.c | 60 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index 37e8ec9..679b769 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -244,8 +244,6 @@ extern int madvise(caddr_t, size_t, int);
 //! Current thread heap
 static tls_storage_t _memory_thread_heap = 0;
 
-//! Initialized flag
-static int _rpmalloc_initialized = 0;
 static int rpmalloc_atexit_set = 0;
 
 static int _rpmalloc_shuting_down = 0;
@@ -273,6 +271,9 @@ make_atomic(unsigned long long, atomic64_t)
 static FORCEINLINE int32_t atomic_load32(atomic32_t *src) {
 	return atomic_load_explicit(src, memory_order_relaxed);
 }
+static FORCEINLINE int32_t atomic_load32_acquire(atomic32_t *src) {
+	return atomic_load_explicit(src, memory_order_acquire);
+}
 static FORCEINLINE void atomic_store32(atomic32_t *dst, int32_t val) {
 	atomic_store_explicit(dst, val, memory_order_relaxed);
 }
@@ -296,6 +297,9 @@ static FORCEINLINE void atomic_store32_release(atomic32_t *dst, int32_t val) {
 static FORCEINLINE int32_t atomic_load32(atomic32_t *src) {
 	return atomic_load_explicit_32(src, memory_order_relaxed);
 }
+static FORCEINLINE int32_t atomic_load32_acquire(atomic32_t *src) {
+	return atomic_load_explicit_32(src, memory_order_acquire);
+}
 static FORCEINLINE void atomic_store32(atomic32_t *dst, int32_t val) {
 	atomic_store_explicit_32(dst, val, memory_order_relaxed);
 }
@@ -748,6 +752,9 @@ static span_t *_memory_global_reserve_master;
 static heap_t *_memory_heaps[HEAP_ARRAY_SIZE];
 //! Used to restrict access to mapping memory for huge pages
 static atomic32_t _memory_global_lock;
+//! Initialized flag, and the lock of the one thread that initializes
+static atomic32_t _rpmalloc_initialized;
+static atomic32_t _memory_init_lock;
 //! Orphaned heaps
 static heap_t *_memory_orphan_heaps;
 
@@ -2636,22 +2643,8 @@ static void _rpmalloc_adjust_size_class(size_t iclass) {
 	}
 }
 
-//! Initialize the allocator and setup global data
-extern int rpmalloc_initialize(void) {
-	if (_rpmalloc_initialized) {
-		rpmalloc_thread_initialize();
-		return 0;
-	}
-	return rpmalloc_initialize_config(0);
-}
-
-int rpmalloc_initialize_config(const rpmalloc_config_t *config) {
-	if (_rpmalloc_initialized) {
-		rpmalloc_thread_initialize();
-		return 0;
-	}
-	_rpmalloc_initialized = 1;
-
+//! Setup global data, as one thread only
+static int _rpmalloc_setup(const rpmalloc_config_t *config) {
 	if (config)
 		memcpy(&_memory_config, config, sizeof(rpmalloc_config_t));
 	else
@@ -2861,16 +2854,37 @@ int rpmalloc_initialize_config(const rpmalloc_config_t *config) {
 	atomic_store32_release(&_memory_global_lock, 0);
 
 	rpmalloc_linker_reference();
+	return 0;
+}
+
+//! Initialize the allocator
+extern int rpmalloc_initialize(void) {
+	return rpmalloc_initialize_config(0);
+}
+
+int rpmalloc_initialize_config(const rpmalloc_config_t *config) {
+	int failed = 0;
+	if (!atomic_load32_acquire(&_rpmalloc_initialized)) {
+		//Other threads wait, nothing is usable before all is set up
+		while (!atomic_cas32_acquire(&_memory_init_lock, 1, 0))
+			_rpmalloc_spin();
+
+		if (!atomic_load32(&_rpmalloc_initialized) && !(failed = _rpmalloc_setup(config)))
+			atomic_store32_release(&_rpmalloc_initialized, 1);
+
+		atomic_store32_release(&_memory_init_lock, 0);
+	}
 
 	//Initialize this thread
-	rpmalloc_thread_initialize();
-	return 0;
+	if (!failed)
+		rpmalloc_thread_initialize();
+	return failed;
 }
 
 //! Finalize the allocator
 void
 rpmalloc_finalize(void) {
-	if (_rpmalloc_initialized == 0)
+	if (!atomic_load32_acquire(&_rpmalloc_initialized))
 		return;
 
 	size_t list_idx, iclass;
@@ -2901,7 +2915,7 @@ rpmalloc_finalize(void) {
 		_rpmalloc_global_cache_finalize(&_memory_span_cache[iclass]);
 #endif
 
-	_rpmalloc_initialized = 0;
+	atomic_store32_release(&_rpmalloc_initialized, 0);
 
 #if defined(__TINYC__) || !defined(_WIN32)
 	pthread_key_delete(_memory_thread_heap);
@@ -3174,7 +3188,7 @@ rpmalloc_global_statistics(rpmalloc_global_statistics_t * stats) {
 }
 
 void rpmalloc_init(void) {
-	if (!_rpmalloc_initialized && !_rpmalloc_shuting_down) {
+	if (!atomic_load32_acquire(&_rpmalloc_initialized) && !_rpmalloc_shuting_down) {
 		rpmalloc_initialize();
 	} else if (!rpmalloc_is_thread_initialized()) {
 		rpmalloc_thread_initialize();
-- 
2.43.0


From d298221a362eb504ef3d78db8c88f3a91571d6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 76/99] fix: events_watch() descriptors are registered for
 reading, and do not drop the other ready ones

The kind of a watch descriptor, EVENTS_PATHWATCH (0x8000), was lost in the
char holding a descriptor's events, and events_poll_once_internal() returned
after the first watch descriptor, leaving the other ready descriptors alone.
---
 src/epoll.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index ba55a57..40b0c02 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -97,14 +97,16 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 	memset(&ev, 0, sizeof(ev));
 	assert(EVENTS_FD_BELONGS_TO_LOOP(&loop->loop, fd));
 
+	/* `target->events` has no room for it, and what is watched gets ready by reading */
+	if ((event & EVENTS_PATHWATCH) != 0)
+		event = EVENTS_READ | (event & EVENTS_ADD);
+
 	if ((event & EVENTS_READWRITE) == (target->events & EVENTS_READWRITE)) {
 		return 0;
 	}
 
-	ev.events = ((event & EVENTS_PATHWATCH) != 0
-		? (EPOLLIN | EPOLLET)
-		: (((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
-			| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0)));
+	ev.events = ((event & EVENTS_READ) != 0 ? EPOLLIN : 0)
+		| ((event & EVENTS_WRITE) != 0 ? EPOLLOUT : 0);
 	ev.data.fd = fd;
 
 #define SET(op, check_error) do {		    \
@@ -171,17 +173,16 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 				| ((event->events & EPOLLERR) != 0 ? (target->events & EVENTS_READWRITE) : 0);
 			if (target->is_pathwatcher) {
 				char *buffer = events_malloc(Kb(8) + sizeof(inotify_t));
-				if (!is_empty(buffer)) {
-					if ((len = read(event->data.fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
-						events_free(buffer);
-						return -1;
-					}
-
-					async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
-					return 0;
+				if (is_empty(buffer))
+					return -1;
+
+				/* the other descriptors are ready as well */
+				if ((len = read(event->data.fd, buffer, Kb(8) + sizeof(inotify_t))) < 0) {
+					events_free(buffer);
+					continue;
 				}
 
-				return -1;
+				async_task(inotify_task, 5, casting(event->data.fd), buffer, casting(len), target->callback, target->cb_arg);
 			} else if (revents != 0) {
 				(*target->callback)(event->data.fd, revents, target->cb_arg);
 			}
-- 
2.43.0


From 3e8773419b3083716d81b8074e7ec5dbe9618a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 77/99] fix: inotify_next() finds the event after the given one

It looked for the buffer in entries of the wrong type, and advanced in units of
whole events instead of bytes.
---
 src/os_unix.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index 90f2019..d668563 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1252,11 +1252,12 @@ EVENTS_INLINE uint32_t inotify_length(inotify_t *event) {
 EVENTS_INLINE inotify_t *inotify_next(inotify_t *event) {
 	int i;
 	for (i = 0; i < ioTableSize; ++i) {
-		if (fdTable[i].type == FD_MONITOR_SYNC && fdTable[i].buf == (char *)event) {
-			char *buf = fdTable[i].buf;
-			size_t numRead = fdTable[i].process->rid;
-			event += sizeof(inotify_t) + event->len;
-			return ((char *)event < buf + numRead) ? event : NULL;
+		if (fdTable[i].type == FD_MONITOR_ASYNC && fdTable[i].buf != NULL) {
+			char *end = fdTable[i].buf + fdTable[i].process->rid;
+			if ((char *)event >= fdTable[i].buf && (char *)event < end) {
+				char *next = (char *)event + sizeof(inotify_t) + event->len;
+				return next < end ? (inotify_t *)next : NULL;
+			}
 		}
 	}
 
-- 
2.43.0


From 9c87c609df55a7d094fc31f657c16c0c9cd76118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 78/99] fix: entries of watched directories do not take the
 place of descriptors

A watch number of inotify was used as an index of the descriptor table, so an
entry collided with the descriptor of the same number, and with the same watch
number of another inotify descriptor. Entries are looked up by the watch number,
go away with the directory, and inotify_close() also stops the loop from waiting.
---
 src/os_unix.c | 140 +++++++++++++++++++++++++++++++++++---------------
 1 file changed, 99 insertions(+), 41 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index d668563..ded0623 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -398,7 +398,15 @@ int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 	while (target->loop && target->loop->active_descriptors >= ioTableSize)
 		grow_ioTable();
 
-	if (desiredFd >= 0 && desiredFd < ioTableSize
+	if (type == FD_MONITOR_SYNC && desiredFd == TASK_ERRED) {
+		/* no descriptor, far from the numbers they have */
+		for (i = ioTableSize - 1; i > 0; --i) {
+			if (fdTable[i].type == FD_UNUSED) {
+				index = i;
+				break;
+			}
+		}
+	} else if (desiredFd >= 0 && desiredFd < ioTableSize
 		&& fdTable[desiredFd].type == FD_UNUSED) {
 		index = desiredFd;
 	} else if (fd > 0) {
@@ -892,7 +900,7 @@ EVENTS_INLINE int os_geterror(void) {
 }
 
 EVENTS_INLINE int events_watch_count(int inotify) {
-	return is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
+	return events_valid_fd(inotify) && is_data(fdTable[inotify].inotify_wd) ? $size(fdTable[inotify].inotify_wd) : 0;
 }
 
 #if __FreeBSD__ || __NetBSD__ || __OpenBSD__ || __DragonFly__ || __APPLE__ || __MACH__
@@ -1270,22 +1278,57 @@ EVENTS_INLINE const char *fs_events_path(int wd) {
 
 void *inotify_task(param_t args) {
 	inotify_t *event = (inotify_t *)args[1].object;
-	inotify_handler(args[0].integer, event, args[2].integer, (watch_cb)args[3].func, args[4].object);
-	events_free((void *)event);
+	events_t *loop = events_target(args[0].integer)->loop;
+
+	/* otherwise no longer watching */
+	if (loop != NULL && loop->inotify_fd != DATA_INVALID)
+		inotify_handler(loop->inotify_fd, event, args[2].integer, (watch_cb)args[3].func, args[4].object);
 
+	events_free((void *)event);
 	return 0;
 }
 
+/* Returns `fdTable` entry of kernel's `wd`, if still watched. */
+static int inotify_pseudo(int fd, int wd) {
+	foreach(watch in fdTable[fd].inotify_wd) {
+		if (fdTable[watch.integer].event_fd == wd)
+			return watch.integer;
+	}
+
+	return TASK_ERRED;
+}
+
+static void inotify_free_wd(int fd, int pseudo) {
+	foreach(watch in fdTable[fd].inotify_wd) {
+		if (watch.integer == pseudo) {
+			$remove(fdTable[fd].inotify_wd, iwatch);
+			break;
+		}
+	}
+
+	events_free_fd(pseudo);
+	fdTable[pseudo].type = FD_UNUSED;
+	fdTable[pseudo].fd = TASK_ERRED;
+}
+
 void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter) {
 	char subpath[PATH_MAX] = {0};
 	char *buffer = (char *)event;
 	char *p = buffer;
 
 	while (p < buffer + len) {
+		int wd;
 		events_monitors action = WATCH_INVALID;
 		int mask = (WATCH_MODIFIED | WATCH_REMOVED | WATCH_ADDED | WATCH_MOVED);
 		inotify_t *evt = (inotify_t *)p;
-		if (evt->len) {
+		if ((wd = inotify_pseudo(fd, evt->wd)) == TASK_ERRED) {
+			/* removed in the meantime */
+		} else if (evt->mask & IN_IGNORED) {
+			/* the directory is gone, and with the last one everything to wait for */
+			inotify_free_wd(fd, wd);
+			if ($size(fdTable[fd].inotify_wd) == 0)
+				events_del(events_get_fd(fd));
+		} else if (evt->len) {
 			if (evt->mask & (IN_CREATE | IN_MOVED_TO))
 				action = WATCH_ADDED;
 			else if (evt->mask & (IN_DELETE | IN_DELETE_SELF | IN_MOVED_FROM))
@@ -1296,10 +1339,10 @@ void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *
 				action = WATCH_MODIFIED;
 
 			if (action) {
-				if (!fdTable[evt->wd].changes)
-					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[evt->wd].path, SYS_DIRSEP, evt->name);
+				if (!fdTable[wd].changes)
+					snprintf(subpath, PATH_MAX, "%s%s%s", fdTable[wd].path, SYS_DIRSEP, evt->name);
 
-				handler(evt->wd, action | ~mask, (const char *)(fdTable[evt->wd].changes ? evt->name : subpath), filter);
+				handler(wd, action | ~mask, (const char *)(fdTable[wd].changes ? evt->name : subpath), filter);
 			}
 		}
 		p += sizeof(inotify_t) + evt->len;
@@ -1325,10 +1368,11 @@ EVENTS_INLINE int __inotify_init1(int flags) {
 }
 
 int inotify_del_monitor(int wd) {
-	if (fdTable[wd].type == FD_MONITOR_SYNC) {
-		__inotify_rm_watch(fdTable[wd]._fd, wd);
-		if ($size(fdTable[fdTable[wd]._fd].inotify_wd) == 0)
-			return events_del(fdTable[wd]._fd);
+	if (wd >= 0 && wd < ioTableSize && fdTable[wd].type == FD_MONITOR_SYNC) {
+		int fd = fdTable[wd]._fd;
+		__inotify_rm_watch(fd, wd);
+		if ($size(fdTable[fd].inotify_wd) == 0)
+			return events_del(events_get_fd(fd));
 
 		return 0;
 	}
@@ -1338,12 +1382,12 @@ int inotify_del_monitor(int wd) {
 
 int inotify_close(int fd) {
 	if (events_valid_fd(fd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			events_free_fd(watch.integer);
-			fdTable[watch.integer].type = FD_UNUSED;
-			fdTable[watch.integer].fd = TASK_ERRED;
-			$remove(fdTable[fd].inotify_wd, iwatch);
-		}
+		events_fd_t *target = events_target(events_get_fd(fd));
+		if (target->loop != NULL && target->is_pathwatcher)
+			events_del(events_get_fd(fd));
+
+		while ($size(fdTable[fd].inotify_wd) > 0)
+			inotify_free_wd(fd, fdTable[fd].inotify_wd[0].integer);
 
 		os_close(fd);
 		return 0;
@@ -1352,6 +1396,28 @@ int inotify_close(int fd) {
 	return TASK_ERRED;
 }
 
+/* Returns `fdTable` entry for a new `wd` of the kernel, only one for each directory. */
+static int inotify_new_wd(int fd, int wd) {
+	int pseudo;
+	if (inotify_pseudo(fd, wd) != TASK_ERRED) {
+		errno = EEXIST;
+		return -1;
+	}
+
+	if ((pseudo = events_new_fd(FD_MONITOR_SYNC, wd, TASK_ERRED)) == -1) {
+		inotify_rm_watch(events_get_fd(fd), wd);
+		errno = ENOSPC;
+		return -1;
+	}
+
+	if (fdTable[fd].inotify_wd == NULL)
+		fdTable[fd].inotify_wd = array();
+
+	$append_signed(fdTable[fd].inotify_wd, pseudo);
+	fdTable[pseudo]._fd = fd;
+	return pseudo;
+}
+
 static void inotify_recursive(int fd, const char *path, uint32_t mask, char *subpath, size_t path_max) {
 	DIR *dir;				/* dir structure we are reading */
 	struct dirent *entry;	/* directory entry currently being processed */
@@ -1369,9 +1435,10 @@ static void inotify_recursive(int fd, const char *path, uint32_t mask, char *sub
 				if (wd == -1)
 					continue;
 
-				int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-				$append_signed(fdTable[fd].inotify_wd, pseudo);
-				fdTable[pseudo]._fd = fd;
+				int pseudo = inotify_new_wd(fd, wd);
+				if (pseudo == -1)
+					continue;
+
 				fdTable[pseudo].path = str_dup_ex(subpath);
 				inotify_recursive(fd, (const char *)fdTable[pseudo].path, mask, subpath, path_max);
 			}
@@ -1396,13 +1463,14 @@ int __inotify_add_watch(int fd, const char *name, uint32_t mask) {
 	if (wd == -1)
 		return wd;
 
-	int pseudo = events_new_fd(FD_MONITOR_SYNC, wd, wd);
-	if (events_is_active()) {
-		if (fdTable[fd].inotify_wd == NULL)
-			fdTable[fd].inotify_wd = array();
+	/* a watch is no descriptor, those using one of the same number shall not find it */
+	int pseudo = events_is_active()
+		? inotify_new_wd(fd, wd)
+		: events_new_fd(FD_MONITOR_SYNC, wd, TASK_ERRED);
+	if (pseudo == -1)
+		return -1;
 
-		$append_signed(fdTable[fd].inotify_wd, pseudo);
-		fdTable[pseudo]._fd = fd;
+	if (events_is_active()) {
 		fdTable[pseudo].changes = 1;
 		fdTable[pseudo].path = str_dup_ex(name);
 		queue_get(queue_work(futures_pool(), _inotify_recursive, 5, casting(fd), fdTable[pseudo].path, casting(mask), subpath, sizeof(subpath)));
@@ -1415,20 +1483,10 @@ EVENTS_INLINE int __inotify_rm_watch(int fd, int wd) {
 	if (wd < 0)
 		return inotify_close(fd);
 
-	int realFd = events_get_fd(fd), realWd = events_get_fd(wd);
-	if (events_is_active() && events_valid_fd(wd)) {
-		foreach(watch in fdTable[fd].inotify_wd) {
-			if (watch.integer == wd) {
-				$remove(fdTable[fd].inotify_wd, iwatch);
-				break;
-			}
-		}
-	}
-
-	if (events_valid_fd(wd)) {
-		events_free_fd(wd);
-		fdTable[wd].type = FD_UNUSED;
-		fdTable[wd].fd = TASK_ERRED;
+	int realFd = events_get_fd(fd), realWd = wd;
+	if (wd < ioTableSize && fdTable[wd].type == FD_MONITOR_SYNC) {
+		realWd = fdTable[wd].event_fd;
+		inotify_free_wd(fd, wd);
 	}
 
 	return inotify_rm_watch(realFd, realWd);
-- 
2.43.0


From c236c488e640f330ef64eec98ba4a63fc777f8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 79/99] fix: fs_events() returns after the directory is being
 watched

It returned after one turn of the scheduler, changes made afterwards could be
missed, and a directory that cannot be watched was reported as watched.
---
 src/async_io.c        | 12 ++++++++++--
 src/events.c          |  6 ++++--
 src/events_internal.h |  6 +++++-
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index ec041d5..9a35926 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -744,6 +744,8 @@ char *fs_readfile(const char *path) {
 
 int fs_events(const char *path, watch_cb handler, void *filter) {
 	int i, rid = TASK_ERRED;
+	atomic_size_t state;
+	atomic_init(&state, WATCH_STARTING);
 	if (!is_data(sys_event.tasks_cpu_idx) || $size(sys_event.tasks_cpu_idx) == 0) {
 		if (events_create_pool(events_create(60)) < 0) {
 			perror("events_create_pool");
@@ -751,10 +753,16 @@ int fs_events(const char *path, watch_cb handler, void *filter) {
 		}
 	}
 
-	if ((rid = fsevents_init(path, handler, filter)) > 0) {
+	if ((rid = fsevents_init(path, handler, filter, &state)) > 0) {
 		events_deque_t *q = sys_event.local[results_tid(rid)];
 		atomic_flag_test_and_set(&q->started);
-		yield();
+		while (atomic_load(&state) == WATCH_STARTING)
+			yield();
+
+		if (atomic_load(&state) == WATCH_FAILED) {
+			fsevents_stop(rid);
+			rid = TASK_ERRED;
+		}
 	}
 
 	return rid;
diff --git a/src/events.c b/src/events.c
index b82aeca..651a43d 100644
--- a/src/events.c
+++ b/src/events.c
@@ -482,6 +482,8 @@ EVENTS_INLINE bool events_is_watching(int inotify) {
 static void *fsevents_task(param_t args) {
 	events_t *loop = event_loop();
 	int fd = events_watch(loop, args[0].const_char_ptr, (watch_cb)args[1].func, args[2].object);
+	/* what happens in the directory from now on will be seen */
+	atomic_store((atomic_size_t *)args[3].object, fd < 0 ? WATCH_FAILED : WATCH_READY);
 	while (events_is_watching(fd) && !task_is_canceled()) {
 		active_info();
 		yield();
@@ -491,9 +493,9 @@ static void *fsevents_task(param_t args) {
 	return 0;
 }
 
-int fsevents_init(const char *name, watch_cb handler, void *filter) {
+int fsevents_init(const char *name, watch_cb handler, void *filter, atomic_size_t *state) {
 	int rid = task_push(create_task(Kb(26),
-		(data_func_t)fsevents_task, arrays(3, name, handler, filter), true, true), true);
+		(data_func_t)fsevents_task, arrays(4, name, handler, filter, state), true, true), true);
 	if (rid > 0) {
 		if (events_fsevents_tasks == null)
 			events_fsevents_tasks = array();
diff --git a/src/events_internal.h b/src/events_internal.h
index 58a2fa3..2795e72 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -618,7 +618,11 @@ void kqueue_watch_init(events_t *loop, watch_cb handler, void *filter);
 void inotify_handler(int fd, inotify_t *event, int len, watch_cb handler, void *filter);
 #endif
 
-int fsevents_init(const char *name, watch_cb handler, void *filter);
+/* States of a `fs_events()` task. */
+#define WATCH_STARTING	0
+#define WATCH_READY		1
+#define WATCH_FAILED	2
+int fsevents_init(const char *name, watch_cb handler, void *filter, atomic_size_t *state);
 int fsevents_stop(uint32_t rid);
 
 bool scope_is_guarded(void);
-- 
2.43.0


From 39ff39296f016535a36166ed2f046f866536640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 80/99] fix: blocks aligned to more than a page give back what
 other threads freed

Allocating them never looked at the spans other threads handed back, memory of a
program that only does this grew for ever.
---
 src/rpmalloc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index 679b769..ea6c06c 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -2305,6 +2305,9 @@ static void *_rpmalloc_aligned_allocate(heap_t *heap, size_t alignment, size_t s
 	size_t mapped_size, align_offset;
 	span_t *span;
 
+	//Free what other threads gave back, as any other allocation of pages does
+	_rpmalloc_heap_cache_adopt_deferred(heap, 0);
+
 retry:
 	align_offset = 0;
 	mapped_size = num_pages * _memory_page_size;
-- 
2.43.0


From 76a29f4e95284dc97d3005a63576cae93f56969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:13 +0000
Subject: [PATCH 81/99] fix: task_is_canceled() in a task without a result
 looks at no other's

The task id was taken for a result id: it told the request of an unrelated
task, or crashed.
---
 src/events.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events.c b/src/events.c
index 651a43d..9312491 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1955,7 +1955,9 @@ EVENTS_INLINE bool task_is_terminated(tasks_t *co) {
 }
 
 EVENTS_INLINE bool task_is_canceled(void) {
-	return task_result_get(task_id())->is_canceled;
+	uint32_t id = active_task()->rid;
+	/* there is no request for `tasks` not having results */
+	return id != NO_RESULT && task_result_get(id)->is_canceled;
 }
 
 EVENTS_INLINE void task_set_canceled(uint32_t id) {
-- 
2.43.0


From 7e03e5c1ef0af0f4eb115b1ae4295abb3aa07e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 82/99] fix: resume() of a task suspended in its first run goes
 through the scheduler

It was switched to directly, while the scheduler took the resuming task for the
running one: the next yield() of the resumed task queued the other one again,
and the resumed task was lost.
---
 src/events.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/events.c b/src/events.c
index 9312491..02232ee 100644
--- a/src/events.c
+++ b/src/events.c
@@ -2482,13 +2482,11 @@ EVENTS_INLINE void resume(tasks_t *co) {
 		tasks_t *t = __thrd()->running;
 		tasklist_t *l = __thrd()->run_queue;
 		t->ready = true;
-		if (co->cycles > 1)
+		/* one that never ran is there already */
+		if (co->cycles > 0)
 			enqueue(l, co);
 		enqueue(l, t);
-		if (co->cycles > 1)
-			suspend();
-		else
-			task_switch(co);
+		suspend();
 		if (active_task() == atexit_ctr_c_task && __thrd()->sleep_count == 1) {
 #ifndef _WIN32
 			__thrd()->active_timer++;
-- 
2.43.0


From 7ea9ca414fdc0eb783d85e8fe5cc4e909d65259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 83/99] fix: the path of a local socket is the one given, with
 ':' and '//', up to its whole length

---
 src/async_io.c  | 20 ++++++++++++++++++--
 src/async_uds.c | 21 +++++++++++++--------
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 9a35926..263945a 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -44,6 +44,12 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		: null;
 	bool is_unix = !is_empty(uds);
 
+	if (is_unix && strlen(address) >= sizeof(usa.sun.sun_path)) {
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return DATA_INVALID;
+	}
+
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
 	if ((fd = socket(sa->sa_family, proto, (protocol ? IPPROTO_IP : IPPROTO_UDP))) < 0) {
 		errno = os_geterror();
@@ -65,7 +71,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 		usa.sun.sun_family = AF_UNIX;
 		uds->socket = fd;
 		uds->type = DATA_UNIX;
-		sn = sizeof(usa.sun.sun_path);
+		sn = sizeof(usa.sun);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
 	} else {
 		sn = sa->sa_family == AF_INET6 ? sizeof(usa.sin6) : sizeof(usa.sin);
@@ -125,6 +131,11 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 			errno = EDESTADDRREQ;
 			return -1;
 		}
+	} else if (strlen(address) >= sizeof(usa.sun.sun_path)) {
+		/* cut, it would be another one */
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return -1;
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
@@ -148,7 +159,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 		usa.sun.sun_family = AF_UNIX;
 		uds->socket = fd;
 		uds->type = DATA_UNIX;
-		sn = sizeof(usa.sun.sun_path);
+		sn = sizeof(usa.sun);
 		err = bind(fd, (struct sockaddr *)&usa.sa, sn);
 	} else {
 		sn = usa.sa.sa_family == AF_INET6 ? sizeof(usa.sin6) : sizeof(usa.sin);
@@ -229,6 +240,11 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 			errno = EDESTADDRREQ;
 			return -1;
 		}
+	} else if (strlen(hostname) >= sizeof(usa.sun.sun_path)) {
+		/* cut, it would be another one */
+		events_free(uds);
+		errno = ENAMETOOLONG;
+		return -1;
 	}
 
 	proto = protocol ? SOCK_STREAM : SOCK_DGRAM;
diff --git a/src/async_uds.c b/src/async_uds.c
index 19e0fb0..9f3f950 100644
--- a/src/async_uds.c
+++ b/src/async_uds.c
@@ -1,11 +1,18 @@
 #define NO_REDEF_POSIX_FUNCTIONS
 #include "events_internal.h"
 
+/* an path, `//` and `:` are part of it, only an scheme is not */
+static char *uds_path(char *addr) {
+	char *path = strstr(addr, "://");
+	if (path != NULL && memchr(addr, '/', path - addr) == NULL)
+		addr = path + 3;
+
+	return str_dup(addr);
+}
+
 int uds_connect(char *addr) {
-	uint32_t ip = 0;
-	int port = 0;
-	char *host = str_parseip(addr, &ip, &port, true);
-	int fd = socket2fd(async_connect(host, port, -1));
+	char *host = uds_path(addr);
+	int fd = socket2fd(async_connect(host, 0, -1));
 	if (fd > 0)
 		defer_free(events_target(fd)->uds);
 
@@ -13,10 +20,8 @@ int uds_connect(char *addr) {
 }
 
 int uds_bind(char *addr, int backlog) {
-	uint32_t ip = 0;
-	int port = 0;
-	char *host = str_parseip(addr, &ip, &port, true);
-	int fd = socket2fd(async_bind(host, port, backlog, -1));
+	char *host = uds_path(addr);
+	int fd = socket2fd(async_bind(host, 0, backlog, -1));
 	if (fd > 0) {
 		defer(unlink, host);
 		defer_free(events_target(fd)->uds);
-- 
2.43.0


From 57227566399f15ad394b79362efb6fe8fc32e0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:58 +0000
Subject: [PATCH 84/99] fix: async_gethostbyname() gives every task an answer
 of its own

---
 src/async_io.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 263945a..322450e 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -348,8 +348,27 @@ int async_write(int fd, void *buf, int n) {
 
 static EVENTS_INLINE void *os_gethostbyname(param_t name) {
 	struct hostent *he = {0};
+#if defined(__linux__) || defined(__FreeBSD__)
+	/* the answer of `gethostbyname()` is the one of whoever asked last */
+	size_t size;
+	int r, err;
+	for (size = Kb(1); size <= Kb(64); size *= 2) {
+		struct hostent *own = events_malloc(sizeof(struct hostent) + size);
+		if (is_empty(own))
+			break;
+
+		r = gethostbyname_r(name->char_ptr, own, (char *)(own + 1), size, &he, &err);
+		if (!r && he != NULL)
+			return (void *)own;
+
+		events_free(own);
+		if (r != ERANGE)
+			break;
+	}
+#else
 	if ((he = gethostbyname(name->char_ptr)) != NULL)
 		return (void *)he;
+#endif
 
 	return NULL;
 }
@@ -524,8 +543,13 @@ EVENTS_INLINE char *gethostbyname_ip(struct hostent *host) {
 }
 
 EVENTS_INLINE struct hostent *async_gethostbyname(char *hostname) {
-	future *thrd = futures_pool();
-	return (struct hostent *)queue_get(queue_work(thrd, os_gethostbyname, 2, hostname, thrd->buffer)).object;
+	struct hostent *host = (struct hostent *)queue_get(queue_work(futures_pool(), os_gethostbyname, 1, hostname)).object;
+#if defined(__linux__) || defined(__FreeBSD__)
+	if (!is_empty(host))
+		defer_free(host);
+#endif
+
+	return host;
 }
 
 static EVENTS_INLINE void *os_getnameinfo(param_t args) {
-- 
2.43.0


From d48593ce34ddfff8289b49f5600a65c57ea5bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:14 +0000
Subject: [PATCH 85/99] fix: copyfile() failed with EINVAL once a part of the
 file was copied

sendfile() refuses an offset and a count that together exceed the largest
offset. SSIZE_MAX is only accepted for the first call, the second one of any
file the kernel does not copy at once, those above 2 GB for one, failed.
---
 src/os_unix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index ded0623..a53cf47 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -1536,7 +1536,7 @@ int copyfile(const char *source, const char *destination) {
 	off_t copied = 0;
 	while (result == 0 && copied < file_stat.st_size) {
 		/* it adds to `copied` itself */
-		ssize_t written = sendfile(output, input, &copied, SSIZE_MAX);
+		ssize_t written = sendfile(output, input, &copied, (size_t)(file_stat.st_size - copied));
 		if (written == -1) {
 			result = -1;
 		} else if (written == 0) {
-- 
2.43.0


From 32b126766636c7d13fd0e98bee84a842e0f9cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:03 +0000
Subject: [PATCH 86/99] fix: a process that could not be started was told to
 have exited with 0

vfork() failing was taken for a started process, spawn() gave a handle of it
and its exit callback got status 0. exec() now fails, and spawn() gives NULL,
with the descriptors opened for it closed.
---
 src/async_io.c | 13 +++++++++++++
 src/os_unix.c  | 14 ++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index 322450e..e78c021 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -905,6 +905,19 @@ static void *spawning(param_t args) {
 			info->exit_func(status, status < 0 ? -status : 0);
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
+#ifndef _WIN32
+		if (pid < 0 && info->io_func) {
+			if (!status)
+				events_del((fds_t)info->read_output[0]);
+
+			close((uintptr_t)info->read_output[0]);
+			close((uintptr_t)info->write_input[1]);
+			if (info->error[0] != inherit) {
+				close((uintptr_t)info->error[0]);
+				close((uintptr_t)info->error[1]);
+			}
+		}
+#endif
 	}
 
 	return 0;
diff --git a/src/os_unix.c b/src/os_unix.c
index a53cf47..4d366fe 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -523,6 +523,7 @@ extern char **environ;
 static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 	process_t p = vfork();
 	if (p != 0) {
+		int saved_errno = errno;
 		if (info->argv != NULL)
 			events_free(info->argv);
 
@@ -533,6 +534,14 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		info->ps = p;
 		info->argv = NULL;
 		info->env = NULL;
+		if (p < 0) {
+			/* there is no process, give the entry back */
+			fdTable[info->fd].fd = info->fd;
+			os_close(info->fd);
+			errno = saved_errno;
+			return (process_t)DATA_INVALID;
+		}
+
 		return (process_t)info->fd;
 	}
 
@@ -629,6 +638,11 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	siginfo_t s;
 	int r, f = 0;
 
+	if ((intptr_t)ps < 0) {
+		errno = ECHILD;
+		return -1;
+	}
+
 	if (fdTable[(intptr_t)ps].process->detached)
 		return 0;
 
-- 
2.43.0


From cd92dba3891299b5164d20f87ed727f79b56d71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:38 +0000
Subject: [PATCH 87/99] fix: starting a process without descriptors left wrote
 outside the table

exec_info() used the entry -1 when eventfd() failed, and spawn() lost the
descriptors and the entry it had when a pipe could not be opened.
---
 src/async_io.c | 30 ++++++++++++++++++++++++++++++
 src/os_unix.c  | 22 ++++++++++++++++------
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index e78c021..b49734e 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -958,9 +958,37 @@ EVENTS_INLINE filefd_t exec_fderr(execinfo_t *child) {
 	return child->error[0];
 }
 
+#ifdef __linux__
+/* the descriptors of a process that is not going to be started */
+static void spawn_undo(execinfo_t *info) {
+	int i, err = os_geterror();
+	for (i = 0; i < 2; i++) {
+		if (info->write_input[i] != inherit)
+			close((uintptr_t)info->write_input[i]);
+
+		if (info->read_output[i] != inherit)
+			close((uintptr_t)info->read_output[i]);
+
+		if (info->error[i] != inherit)
+			close((uintptr_t)info->error[i]);
+	}
+
+	if (info->env != NULL) {
+		events_free(info->env);
+		info->env = NULL;
+	}
+
+	os_close(info->fd);
+	errno = err;
+}
+#endif
+
 static execinfo_t *spawn_ex(const char *command, const char *args, const char *env,
 	bool is_datached, spawn_cb io_func, exit_cb exit_func) {
 	execinfo_t *info = exec_info(env, is_datached, inherit, inherit, inherit);
+	if (is_empty(info))
+		return NULL;
+
 	if (io_func) {
 #ifdef _WIN32
 		if (os_create_pipe("spawn_in", &info->write_input[0], &info->write_input[1])
@@ -997,6 +1025,7 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 		if (pipe2(_2fd(info->write_input), O_CLOEXEC)
 			|| pipe2(_2fd(info->read_output), O_CLOEXEC)) {
 			perror("pipe2");
+			spawn_undo(info);
 			return NULL;
 		}
 		events_set_nonblocking(info->write_input[1]);
@@ -1005,6 +1034,7 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 		if (!is_empty(env)) {
 			if (pipe2(_2fd(info->error), O_CLOEXEC)) {
 				perror("pipe2");
+				spawn_undo(info);
 				return NULL;
 			}
 			events_set_nonblocking(info->error[0]);
diff --git a/src/os_unix.c b/src/os_unix.c
index 4d366fe..dc6b796 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -345,7 +345,9 @@ int os_read(int fd, char *buf, size_t len) {
 
 EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
-	int r = 0, can_clear = events_valid_fd(fd);
+	/* one for a process that was not started yet has nothing but its entry */
+	int r = 0, can_clear = events_valid_fd(fd)
+		|| (fd >= 0 && fd < ioTableSize && fdTable[fd].type == FD_CHILD);
 	if (can_clear)
 		events_free_fd(fd);
 
@@ -536,7 +538,6 @@ static inline process_t os_exec_info(const char *filename, execinfo_t *info) {
 		info->env = NULL;
 		if (p < 0) {
 			/* there is no process, give the entry back */
-			fdTable[info->fd].fd = info->fd;
 			os_close(info->fd);
 			errno = saved_errno;
 			return (process_t)DATA_INVALID;
@@ -602,7 +603,15 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 #if __APPLE__ && __MACH__
 	int pseudofd = events_new_fd((FILE_TYPE)FD_CHILD, hIoCompPort_token, -1);
 #else
-	int pseudofd = events_new_fd(FD_CHILD, eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK), -1);
+	int fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK);
+	if (fd < 0)
+		return NULL;
+
+	int pseudofd = events_new_fd(FD_CHILD, fd, -1);
+	if (pseudofd < 0) {
+		close(fd);
+		return NULL;
+	}
 #endif
 	execinfo_t *info = fdTable[pseudofd].process;
 	info->detached = is_detached;
@@ -624,10 +633,11 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 
 EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *info) {
 	/* no arguments are none, not an empty one */
-	char *cmd_arg = str_cat_ex((args == NULL || *args == '\0' ? 1 : 3), command, ",", args);
-	if (info == NULL)
-		info = exec_info(NULL, false, inherit, inherit, inherit);
+	char *cmd_arg;
+	if (info == NULL && (info = exec_info(NULL, false, inherit, inherit, inherit)) == NULL)
+		return (process_t)DATA_INVALID;
 
+	cmd_arg = str_cat_ex((args == NULL || *args == '\0' ? 1 : 3), command, ",", args);
 	info->argv = str_split_ex(cmd_arg, ",", NULL);
 	events_free(cmd_arg);
 
-- 
2.43.0


From c22e68789763097d157ea33c9a6b8ae93ed21ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:50 +0000
Subject: [PATCH 88/99] fix: a process whose output could not be waited for was
 started and left behind

---
 src/async_io.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index b49734e..0c5f107 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -853,13 +853,26 @@ static void *spawning(param_t args) {
 	HANDLE ioThread = NULL;
 #endif
 	task_name("spawn #%d", task_id());
-	pid = exec((const char *)command, args[1].const_char_ptr, info);
+#ifndef _WIN32
+	/* not to be started, when its output could not be waited for */
+	if (info->io_func && events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info)) {
+		status = os_geterror();
+		pid = (process_t)DATA_INVALID;
+		if (info->env != NULL) {
+			events_free(info->env);
+			info->env = NULL;
+		}
+		os_close(info->fd);
+		errno = status;
+		status = DATA_INVALID;
+	} else
+#endif
+		pid = exec((const char *)command, args[1].const_char_ptr, info);
 	if (info->io_func) {
 #ifndef _WIN32
 		/* the ends of the process, kept open here there would be no end of its output */
 		close((uintptr_t)info->read_output[1]);
 		close((uintptr_t)info->write_input[0]);
-		status = events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info);
 #else
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
-- 
2.43.0


From 0f06e5b87b56924096f9ed4c07425d9ed56aedaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:46 +0000
Subject: [PATCH 89/99] fix: a process started by one without standard
 descriptors got none of its own

---
 src/async_io.c | 28 ++++++++++++++++++++++++----
 src/os_unix.c  |  8 ++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 0c5f107..3211dba 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -971,7 +971,7 @@ EVENTS_INLINE filefd_t exec_fderr(execinfo_t *child) {
 	return child->error[0];
 }
 
-#ifdef __linux__
+#if !defined(_WIN32) && !defined(__APPLE__) && !defined(__MACH__)
 /* the descriptors of a process that is not going to be started */
 static void spawn_undo(execinfo_t *info) {
 	int i, err = os_geterror();
@@ -994,6 +994,26 @@ static void spawn_undo(execinfo_t *info) {
 	os_close(info->fd);
 	errno = err;
 }
+
+/* no end of it takes the number of a standard descriptor, these get replaced in the process */
+static int spawn_pipe(int *ends) {
+	int i, fd;
+	if (pipe2(ends, O_CLOEXEC))
+		return TASK_ERRED;
+
+	for (i = 0; i < 2; i++) {
+		if (ends[i] > STDERR_FILENO)
+			continue;
+
+		if ((fd = fcntl(ends[i], F_DUPFD_CLOEXEC, STDERR_FILENO + 1)) < 0)
+			return TASK_ERRED;
+
+		close(ends[i]);
+		ends[i] = fd;
+	}
+
+	return 0;
+}
 #endif
 
 static execinfo_t *spawn_ex(const char *command, const char *args, const char *env,
@@ -1035,8 +1055,8 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 		}
 #else
 		/* the ends of the process itself must block, and no other process must keep them open */
-		if (pipe2(_2fd(info->write_input), O_CLOEXEC)
-			|| pipe2(_2fd(info->read_output), O_CLOEXEC)) {
+		if (spawn_pipe(_2fd(info->write_input))
+			|| spawn_pipe(_2fd(info->read_output))) {
 			perror("pipe2");
 			spawn_undo(info);
 			return NULL;
@@ -1045,7 +1065,7 @@ static execinfo_t *spawn_ex(const char *command, const char *args, const char *e
 		events_set_nonblocking(info->read_output[0]);
 
 		if (!is_empty(env)) {
-			if (pipe2(_2fd(info->error), O_CLOEXEC)) {
+			if (spawn_pipe(_2fd(info->error))) {
 				perror("pipe2");
 				spawn_undo(info);
 				return NULL;
diff --git a/src/os_unix.c b/src/os_unix.c
index dc6b796..6c69b35 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -607,6 +607,14 @@ EVENTS_INLINE execinfo_t *exec_info(const char *env, bool is_detached,
 	if (fd < 0)
 		return NULL;
 
+	/* the number is the one of the process too, and that is not 0 */
+	if (fd == 0) {
+		fd = fcntl(0, F_DUPFD_CLOEXEC, 1);
+		close(0);
+		if (fd < 0)
+			return NULL;
+	}
+
 	int pseudofd = events_new_fd(FD_CHILD, fd, -1);
 	if (pseudofd < 0) {
 		close(fd);
-- 
2.43.0


From 1cabcb47ac187532bb63095c4ad8cf901a06abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 90/99] fix: what belongs to a process of one thread was given
 to another before its end was told

---
 src/async_io.c        | 36 +++++++++++++++++++++++++-----------
 src/events_internal.h |  5 +++++
 src/os_unix.c         | 26 +++++++++++++++++++++-----
 3 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/async_io.c b/src/async_io.c
index 3211dba..68d7bc0 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -854,6 +854,9 @@ static void *spawning(param_t args) {
 #endif
 	task_name("spawn #%d", task_id());
 #ifndef _WIN32
+	/* of one that is not started `info` is given back at once */
+	execinfo_t ends = *info;
+
 	/* not to be started, when its output could not be waited for */
 	if (info->io_func && events_add(event_loop(), (fds_t)info->read_output[0], EVENTS_READ, 0, spawn_io, info)) {
 		status = os_geterror();
@@ -868,24 +871,30 @@ static void *spawning(param_t args) {
 	} else
 #endif
 		pid = exec((const char *)command, args[1].const_char_ptr, info);
-	if (info->io_func) {
 #ifndef _WIN32
+	if (ends.io_func) {
 		/* the ends of the process, kept open here there would be no end of its output */
-		close((uintptr_t)info->read_output[1]);
-		close((uintptr_t)info->write_input[0]);
+		close((uintptr_t)ends.read_output[1]);
+		close((uintptr_t)ends.write_input[0]);
+	}
 #else
+	if (info->io_func) {
 		status = -1;
 		if (events_assign_fd(info->read_output[0], (intptr_t)pid)) {
 			status = events_add(event_loop(), (fds_t)pid, EVENTS_READ, 0, spawn_io, info);
 			ioThread = CreateThread(0, Kb(16), spawn_io_thread, info, 0, NULL);
 		}
-#endif
 	}
+#endif
 
 	if (!status && pid > 0) {
 		info->context = t;
 		yield();
+#ifndef _WIN32
+		while (exec_status(pid, 0, &status) && os_geterror() == ETIMEDOUT) {
+#else
 		while (exec_wait(pid, 0, &status) && os_geterror() == ETIMEDOUT) {
+#endif
 			tasks_info(t, 1);
 			yield();
 		}
@@ -916,18 +925,23 @@ static void *spawning(param_t args) {
 
 		if (info->exit_func)
 			info->exit_func(status, status < 0 ? -status : 0);
+
+#ifndef _WIN32
+		/* from here on `info` might belong to another process */
+		os_close((intptr_t)pid);
+#endif
 	} else {
 		cerr("Process launch failed with: %s"CLR_LN, strerror(os_geterror()));
 #ifndef _WIN32
-		if (pid < 0 && info->io_func) {
+		if (pid < 0 && ends.io_func) {
 			if (!status)
-				events_del((fds_t)info->read_output[0]);
+				events_del((fds_t)ends.read_output[0]);
 
-			close((uintptr_t)info->read_output[0]);
-			close((uintptr_t)info->write_input[1]);
-			if (info->error[0] != inherit) {
-				close((uintptr_t)info->error[0]);
-				close((uintptr_t)info->error[1]);
+			close((uintptr_t)ends.read_output[0]);
+			close((uintptr_t)ends.write_input[1]);
+			if (ends.error[0] != inherit) {
+				close((uintptr_t)ends.error[0]);
+				close((uintptr_t)ends.error[1]);
 			}
 		}
 #endif
diff --git a/src/events_internal.h b/src/events_internal.h
index 2795e72..ea10f28 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -597,6 +597,11 @@ int inotify_del_monitor(int wd);
 int inotify_close(int fd);
 void *inotify_task(param_t args);
 
+#ifndef _WIN32
+/* What `exec_wait()` does, the entry of the process in the table stays. */
+int exec_status(process_t ps, uint32_t timeout_ms, int *exit_code);
+#endif
+
 #ifdef _WIN32
 int inotify_wd(int pseudo);
 void inotify_handler(int fd, inotify_t *event, watch_cb handler, void *filter);
diff --git a/src/os_unix.c b/src/os_unix.c
index 6c69b35..cac9c0f 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -348,12 +348,21 @@ EVENTS_INLINE int os_close(int fd) {
 	/* one for a process that was not started yet has nothing but its entry */
 	int r = 0, can_clear = events_valid_fd(fd)
 		|| (fd >= 0 && fd < ioTableSize && fdTable[fd].type == FD_CHILD);
+	/* of a process the table has its id, no descriptor,
+	and once the number is free another thread might get it, and the entry with it */
+	if (can_clear && fdTable[fd].type == FD_CHILD) {
+		int event_fd = fdTable[fd].event_fd;
+		fdTable[fd].event_fd = TASK_ERRED;
+		fdTable[fd].fd = TASK_ERRED;
+		fdTable[fd].type = (fd_types)FD_UNUSED;
+		close(event_fd);
+		return 0;
+	}
+
 	if (can_clear)
 		events_free_fd(fd);
 
-	/* of a process the table has its id, no descriptor */
-	if (!can_clear || fdTable[fd].type != FD_CHILD)
-		r = close(events_get_fd(fd));
+	r = close(events_get_fd(fd));
 
 	if (can_clear) {
 		fdTable[fd].type = (fd_types)FD_UNUSED;
@@ -652,7 +661,7 @@ EVENTS_INLINE process_t exec(const char *command, const char *args, execinfo_t *
 	return os_exec_info(command, info);
 }
 
-int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
+int exec_status(process_t ps, uint32_t timeout_ms, int *exit_code) {
 	siginfo_t s;
 	int r, f = 0;
 
@@ -686,10 +695,17 @@ int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
 			*exit_code = -s.si_status;
 	}
 
-	os_close((intptr_t)ps);
 	return 0;
 }
 
+int exec_wait(process_t ps, uint32_t timeout_ms, int *exit_code) {
+	int r = exec_status(ps, timeout_ms, exit_code);
+	if (r == 0 && !fdTable[(intptr_t)ps].process->detached)
+		os_close((intptr_t)ps);
+
+	return r;
+}
+
 /* all signals wait, in this thread, while the callback of one runs, see `sa_mask` */
 static void events_sig_handler(int sig) {
 	int i;
-- 
2.43.0


From 3ddae039f5f4fc410306dcf43f61dbf5de097729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:14 +0000
Subject: [PATCH 91/99] fix: the name of a named pipe took the place of another
 descriptor in the table

---
 src/os_unix.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index cac9c0f..c5f66cb 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -157,20 +157,24 @@ EVENTS_INLINE int os_iodispatch(int ms) {
 
 EVENTS_INLINE int os_mkfifo(const char *name, mode_t mode) {
 	events_init(256);
-	int fake;
+	int fake, r, saved_errno;
 	snprintf(sys_event.pNamed, sizeof(sys_event.pNamed), "%s%s", SYS_PIPE, name);
-	if ((fake = events_new_fd(FD_PIPE_ASYNC, hIoCompPort, - 1)) != -1)
+	r = mkfifo(sys_event.pNamed, mode);
+	saved_errno = errno;
+	if ((r == 0 || saved_errno == EEXIST) && events_pseudo_fd(sys_event.pNamed) == -1
+		&& (fake = events_new_fd(FD_PIPE_ASYNC, hIoCompPort, - 1)) != -1)
 		fdTable[fake].path = str_dup_ex(sys_event.pNamed);
 
-	return mkfifo(sys_event.pNamed, mode);
+	errno = saved_errno;
+	return r;
 }
 
 EVENTS_INLINE int os_open(const char *path, int flags, mode_t mode) {
 	int fake = events_pseudo_fd(path);
 	if (fake != -1) {
 		if (fdTable[fake].type == FD_PIPE_ASYNC) {
+			/* the entry is but a name, descriptors of its number are others */
 			sys_event.pHandle = open(fdTable[fake].path, flags, mode);
-			fdTable[fake].fd = sys_event.pHandle;
 			return sys_event.pHandle;
 		}
 	}
@@ -409,7 +413,7 @@ int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 	while (target->loop && target->loop->active_descriptors >= ioTableSize)
 		grow_ioTable();
 
-	if (type == FD_MONITOR_SYNC && desiredFd == TASK_ERRED) {
+	if ((type == FD_MONITOR_SYNC || type == FD_PIPE_ASYNC) && desiredFd == TASK_ERRED) {
 		/* no descriptor, far from the numbers they have */
 		for (i = ioTableSize - 1; i > 0; --i) {
 			if (fdTable[i].type == FD_UNUSED) {
-- 
2.43.0


From 1ce7f71020d96d60a2fcf31e370349b04753c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:06 +0000
Subject: [PATCH 92/99] fix: read(), open() and close() crashed before the
 library was set up

---
 src/os_unix.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/os_unix.c b/src/os_unix.c
index c5f66cb..1f38953 100644
--- a/src/os_unix.c
+++ b/src/os_unix.c
@@ -351,7 +351,7 @@ EVENTS_INLINE int os_close(int fd) {
 	if (fd == -1) return 0;
 	/* one for a process that was not started yet has nothing but its entry */
 	int r = 0, can_clear = events_valid_fd(fd)
-		|| (fd >= 0 && fd < ioTableSize && fdTable[fd].type == FD_CHILD);
+		|| (fdTable != NULL && fd >= 0 && fd < ioTableSize && fdTable[fd].type == FD_CHILD);
 	/* of a process the table has its id, no descriptor,
 	and once the number is free another thread might get it, and the entry with it */
 	if (can_clear && fdTable[fd].type == FD_CHILD) {
@@ -397,7 +397,7 @@ int events_pseudo_fd(const char *name) {
 	int i;
 
 	snprintf(buffer, sizeof(buffer), "%s%s", SYS_PIPE, name);
-	for (i = 0; i < ioTableSize; ++i) {
+	for (i = 0; fdTable != NULL && i < ioTableSize; ++i) {
 		if (fdTable[i].type != FD_UNUSED && fdTable[i].path != NULL
 			&& (str_is(buffer, fdTable[i].path) || str_is(name, fdTable[i].path)))
 			return i;
@@ -482,7 +482,8 @@ int events_new_fd(FILE_TYPE type, int fd, int desiredFd) {
 }
 
 EVENTS_INLINE bool events_valid_fd(int pseudo) {
-	return (pseudo >= 0) && (pseudo < ioTableSize)
+	/* nothing is in the table before `events_init`, and after the library is gone */
+	return fdTable != NULL && (pseudo >= 0) && (pseudo < ioTableSize)
 		&& fdTable[pseudo].type != FD_UNUSED
 		&& fdTable[pseudo].fd != TASK_ERRED;
 }
-- 
2.43.0


From 4131531d0e7245308bca15e4a992ea22ee671d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:18 +0000
Subject: [PATCH 93/99] fix: what was deleted from a loop stayed there while a
 duplicate of the descriptor was open

---
 src/epoll.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/epoll.c b/src/epoll.c
index 40b0c02..8b093d7 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -117,7 +117,10 @@ int events_update_internal(events_t *_loop, int fd, int event) {
 #if EVENTS_EPOLL_DEFER_DELETES
 
 	if ((event & EVENTS_DEL) != 0) {
-	  /* nothing to do */
+		/* closing it will not do, if there is a duplicate, or a child process that has it too */
+		int saved_errno = errno;
+		SET(EPOLL_CTL_DEL, 0);
+		errno = saved_errno;
 	} else if ((event & EVENTS_READWRITE) == 0) {
 		SET(EPOLL_CTL_DEL, 1);
 	} else {
-- 
2.43.0


From a12a2c94434647457f691bd9b335ffe34d43dbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:07 +0000
Subject: [PATCH 94/99] fix: events_init() after events_deinit() starts with no
 task of before in its queue

---
 src/events.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/events.c b/src/events.c
index 02232ee..d297870 100644
--- a/src/events.c
+++ b/src/events.c
@@ -1077,6 +1077,10 @@ static void __thrd_init(bool is_main, uint32_t thread_id) {
 	__thrd()->active_timer = 0;
 	__thrd()->sleep_count = 0;
 	__thrd()->task_count = 0;
+	/* nothing left of before an `events_deinit()` */
+	memset(__thrd()->run_queue, 0, sizeof(__thrd()->run_queue));
+	memset(__thrd()->sleep_queue, 0, sizeof(__thrd()->sleep_queue));
+	__thrd()->running = NULL;
 	__thrd()->active_handle = NULL;
 	__thrd()->current_handle = NULL;
 	__thrd()->main_handle = NULL;
-- 
2.43.0


From fa780ad719c90c9f5395c18edc1d397adc5212de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:18 +0000
Subject: [PATCH 95/99] fix: a loop destroyed by one of its callbacks lasts
 until events_once() is through with it

---
 src/epoll.c           |  8 +++++++-
 src/events.c          | 37 +++++++++++++++++++++++++------------
 src/events_internal.h |  3 +++
 src/kqueue.c          |  8 +++++++-
 4 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 8b093d7..0f3ed10 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -79,6 +79,12 @@ int events_destroy(events_t *_loop) {
 	events_epoll *loop = (events_epoll *)_loop;
 
 	events_set_destroy();
+	if (loop != NULL && loop->loop.running > 0) {
+		/* still in use, by whoever called back */
+		loop->loop.is_destroyed = true;
+		return 0;
+	}
+
 	if (loop == NULL || epoll_close(loop->epfd) != 0) {
 		return -1;
 	}
@@ -164,7 +170,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 		/* the callback of a signal ran, that is no error */
 		return errno == EINTR ? 0 : -1;
 	}
-	for (i = 0; i < nevents; ++i) {
+	for (i = 0; i < nevents && !loop->loop.is_destroyed; ++i) {
 		struct epoll_event *event = loop->events + i;
 		events_fd_t *target = events_target(event->data.fd);
 		if (loop->loop.loop_id == target->loop_id
diff --git a/src/events.c b/src/events.c
index d297870..e82a0fd 100644
--- a/src/events.c
+++ b/src/events.c
@@ -713,25 +713,34 @@ EVENTS_INLINE void events_set_callback(events_t *loop __attribute__((unused)),
 }
 
 EVENTS_INLINE int events_once(events_t *loop, int max_wait) {
+	int r;
 	if (max_wait > loop->timeout.resolution) {
 		max_wait = loop->timeout.resolution;
 	}
 
 	loop->now = time(NULL);
-	if (events_execute(loop, max_wait) != 0) {
-		return -1;
-	}
+	loop->running++;
+	if ((r = events_execute(loop, max_wait)) == 0) {
+		if (!__thrd()->in_callback && __thrd()->task_count) {
+			tasks_schedulering(false);
+		}
+
+		if (!loop->is_destroyed) {
+			if (max_wait != 0) {
+				loop->now = time(NULL);
+			}
 
-	if (!__thrd()->in_callback && __thrd()->task_count) {
-		tasks_schedulering(false);
+			events_handle_timeout_internal(loop);
+			r = (int)(loop->active_descriptors + loop->active_timers + loop->active_io);
+		}
 	}
 
-	if (max_wait != 0) {
-		loop->now = time(NULL);
+	if (--loop->running == 0 && loop->is_destroyed) {
+		events_destroy(loop);
+		r = 0;
 	}
 
-	events_handle_timeout_internal(loop);
-	return (int)(loop->active_descriptors + loop->active_timers + loop->active_io);
+	return r;
 }
 
 EVENTS_INLINE void *events_memalign(size_t sz, void **orig_addr, int clear) {
@@ -757,6 +766,8 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 	loop->active_timers = 0;
 	loop->active_signals = 0;
 	loop->signal_handlers = NULL;
+	loop->running = 0;
+	loop->is_destroyed = false;
 	memset(loop->timers, 0, sizeof(loop->timers));
 	assert(EVENTS_TOO_MANY_LOOPS);
 	if ((loop->timeout.vec_of_vec = (short *)events_memalign(
@@ -810,9 +821,8 @@ EVENTS_INLINE void events_handle_timeout_internal(events_t *loop) {
 								events_fd_t *fd = events_target(k);
 								assert(fd->loop_id == loop->loop_id);
 								fd->timeout_idx = EVENTS_TIMEOUT_IDX_UNUSED;
-								events_id_t loop_id = loop->loop_id;
 								(*fd->callback)(k, EVENTS_TIMEOUT, fd->cb_arg);
-								if (loop_id != loop->loop_id)
+								if (loop->is_destroyed)
 									return;
 							}
 						}
@@ -975,13 +985,16 @@ static int events_execute(events_t *loop, int max_wait) {
 	if (loop->active_io)
 		os_iodispatch((__thrd()->task_count ? 0 : max_wait));
 
+	if (loop->is_destroyed)
+		return 0;
+
 	if (events_poll_once_internal(loop, (__thrd()->task_count || loop->active_io ? 0 : max_wait)) != 0) {
 		return -1;
 	}
 
 	now = events_nsec();
 	l = loop->timers;
-	while ((t = l->head) && now >= t->alarmtime) {
+	while (!loop->is_destroyed && (t = l->head) && now >= t->alarmtime) {
 		dequeue(l, t);
 		t->prev = t->next = NULL;
 		/* goes on only if its callback says so, again */
diff --git a/src/events_internal.h b/src/events_internal.h
index ea10f28..c3c01ef 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -338,6 +338,9 @@ struct events_loop_s {
 	time_t now;
 	sys_signal_t *signal_handlers;
 	timerlist_t timers[1];
+	/* how often in `events_once()`, and to be gone after it, one of its callbacks said so */
+	int running;
+	bool is_destroyed;
 };
 
 /* Base events coroutine context. */
diff --git a/src/kqueue.c b/src/kqueue.c
index 85bf50d..3a41ac4 100644
--- a/src/kqueue.c
+++ b/src/kqueue.c
@@ -119,6 +119,12 @@ int events_destroy(events_t *_loop) {
 	events_kqueue *loop = (events_kqueue *)_loop;
 
 	events_set_destroy();
+	if (loop != NULL && loop->loop.running > 0) {
+		/* still in use, by whoever called back */
+		loop->loop.is_destroyed = true;
+		return 0;
+	}
+
 	if (loop == NULL || close(loop->kq) != 0) {
 		return -1;
 	}
@@ -180,7 +186,7 @@ int events_poll_once_internal(events_t *_loop, int max_wait) {
 		assert(errno == EACCES || errno == EFAULT || errno == EINTR);
 		return -1;
 	}
-	for (i = 0; i < nevents; ++i) {
+	for (i = 0; i < nevents && !loop->loop.is_destroyed; ++i) {
 		struct kevent *event = loop->events + i;
 		events_fd_t *target = events_target(event->ident);
 		/* changelist errors are fatal */
-- 
2.43.0


From 46943cf05ce72418d57f3b2f9bbbdf6e3245f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:07 +0000
Subject: [PATCH 96/99] fix: destroying one loop of a thread ended the others:
 events_is_running() of them said no

---
 src/epoll.c           |  2 +-
 src/events.c          | 20 +++++++++++++++++---
 src/events_internal.h |  3 ++-
 src/kqueue.c          |  2 +-
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/epoll.c b/src/epoll.c
index 0f3ed10..8ba4ae0 100644
--- a/src/epoll.c
+++ b/src/epoll.c
@@ -78,7 +78,7 @@ events_t *events_create(int max_timeout) {
 int events_destroy(events_t *_loop) {
 	events_epoll *loop = (events_epoll *)_loop;
 
-	events_set_destroy();
+	events_set_destroy(_loop);
 	if (loop != NULL && loop->loop.running > 0) {
 		/* still in use, by whoever called back */
 		loop->loop.is_destroyed = true;
diff --git a/src/events.c b/src/events.c
index e82a0fd..de5e3db 100644
--- a/src/events.c
+++ b/src/events.c
@@ -77,6 +77,8 @@ typedef struct {
 	array_t reserve_data;
 	/* per thread event loop */
 	events_t *loop;
+	/* the last one destroyed */
+	events_t *destroyed;
 	future *pool;
 	tasks_t *sleep_handle;
 	/* record which task is executing for scheduler */
@@ -128,8 +130,11 @@ EVENTS_INLINE bool events_is_shutdown(void) {
 	return events_shutdown_set;
 }
 
-void events_set_destroy(void) {
-	__thrd()->loop = NULL;
+void events_set_destroy(events_t *loop) {
+	__thrd()->destroyed = loop;
+	/* another one goes on */
+	if (__thrd()->loop == loop)
+		__thrd()->loop = NULL;
 }
 
 EVENTS_INLINE bool events_is_destroy(void) {
@@ -251,6 +256,7 @@ int events_init(int max_fd) {
 	atomic_init(&sys_event.tasks_id_count, 0);
 	atomic_init(&sys_event.id_generate, 0);
 	atomic_init(&sys_event.num_loops, 0);
+	atomic_init(&sys_event.live_loops, 0);
 	atomic_flag_clear(&sys_event.loop_signaled);
 	atomic_unlock(&sys_event.lock);
 	events_fd_t *fds = (events_fd_t *)events_memalign(sizeof(events_fd_t) * max_fd, &sys_event._fds_free_addr, 1);
@@ -657,7 +663,8 @@ EVENTS_INLINE bool events_is_registered(events_t *loop, fds_t sfd) {
 }
 
 EVENTS_INLINE bool events_is_running(events_t *loop) {
-	return (events_shutdown_set || events_is_destroy() || events_got_signal)
+	return (events_shutdown_set || events_got_signal || loop == __thrd()->destroyed
+		|| (events_is_destroy() && atomic_load(&sys_event.live_loops) == 0))
 		? false
 		: (int)loop->active_descriptors > 0
 		|| (int)loop->active_timers > 0
@@ -781,6 +788,10 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 	loop->timeout.base_idx = 0;
 	loop->timeout.base_time = time(NULL);
 	loop->timeout.resolution = EVENTS_RND_UP(max_timeout, EVENTS_TIMEOUT_VEC_SIZE) / EVENTS_TIMEOUT_VEC_SIZE;
+	atomic_fetch_add(&sys_event.live_loops, 1);
+	if (__thrd()->destroyed == loop)
+		__thrd()->destroyed = NULL;
+
 	if (events_is_destroy())
 		__thrd()->loop = loop;
 
@@ -795,6 +806,8 @@ int events_init_loop_internal(events_t *loop, int max_timeout) {
 }
 
 void events_deinit_loop_internal(events_t *loop) {
+	atomic_fetch_sub(&sys_event.live_loops, 1);
+	events_set_destroy(loop);
 	events_free(loop->timeout._free_addr);
 }
 
@@ -1098,6 +1111,7 @@ static void __thrd_init(bool is_main, uint32_t thread_id) {
 	__thrd()->current_handle = NULL;
 	__thrd()->main_handle = NULL;
 	__thrd()->loop = NULL;
+	__thrd()->destroyed = NULL;
 	__thrd()->pool = NULL;
 	__thrd()->sleep_handle = create_task(Kb(18), (data_func_t)task_wait_system, null, false, true);
 	__thrd()->sleep_activated = (int)task_push(__thrd()->sleep_handle, true) > 0;
diff --git a/src/events_internal.h b/src/events_internal.h
index c3c01ef..2680089 100644
--- a/src/events_internal.h
+++ b/src/events_internal.h
@@ -296,6 +296,7 @@ struct sys_events_s {
 	receive next `promise`, `count % (thread future pool)` */
 	atomic_size_t future_id_count;
 	atomic_size_t num_loops;
+	atomic_size_t live_loops;
 #if __APPLE__ && __MACH__
 	atomic_results_t results;
 #else
@@ -554,7 +555,7 @@ struct af_unix_s {
 	u_saddr_t *addr;
 };
 
-void events_set_destroy(void);
+void events_set_destroy(events_t *loop);
 int events_add_signal(int sig, sig_cb proc, void *data);
 void events_del_signal(int sig, int i);
 events_fd_t *events_target(int fd);
diff --git a/src/kqueue.c b/src/kqueue.c
index 3a41ac4..e29706b 100644
--- a/src/kqueue.c
+++ b/src/kqueue.c
@@ -118,7 +118,7 @@ events_t *events_create(int max_timeout) {
 int events_destroy(events_t *_loop) {
 	events_kqueue *loop = (events_kqueue *)_loop;
 
-	events_set_destroy();
+	events_set_destroy(_loop);
 	if (loop != NULL && loop->loop.running > 0) {
 		/* still in use, by whoever called back */
 		loop->loop.is_destroyed = true;
-- 
2.43.0


From c152c29f08603313078cf2dca283348ab14a0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:24 +0000
Subject: [PATCH 97/99] fix: tasks started in a callback crashed once the first
 loop of their thread was destroyed

---
 src/events.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/events.c b/src/events.c
index de5e3db..0101aa4 100644
--- a/src/events.c
+++ b/src/events.c
@@ -725,6 +725,10 @@ EVENTS_INLINE int events_once(events_t *loop, int max_wait) {
 		max_wait = loop->timeout.resolution;
 	}
 
+	/* the one of this thread was destroyed, its tasks go on here */
+	if (events_is_destroy())
+		__thrd()->loop = loop;
+
 	loop->now = time(NULL);
 	loop->running++;
 	if ((r = events_execute(loop, max_wait)) == 0) {
-- 
2.43.0


From f940eceb2b5831c4b3e53e0ad46e5f7ca6ed0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:58 +0000
Subject: [PATCH 98/99] fix: socket_is_udp() and socket_is_uds() told what a
 closed descriptor of the same number had been

---
 src/async_io.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/async_io.c b/src/async_io.c
index 68d7bc0..3fa86c5 100644
--- a/src/async_io.c
+++ b/src/async_io.c
@@ -105,6 +105,7 @@ fds_t async_socket(struct sockaddr *sa, char *address, int backlog, int protocol
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
@@ -180,6 +181,7 @@ fds_t async_bind(char *address, int port, int backlog, int protocol) {
 
 	events_set_nonblocking(fd);
 	events_target(socket2fd(fd))->uds = uds;
+	events_target(socket2fd(fd))->udp = null;
 	return fd;
 }
 
@@ -200,6 +202,9 @@ fds_t async_accept(fds_t fd, char *server, int *port) {
 		return -1;
 	}
 
+	/* the descriptor might have been of another kind before */
+	events_target(socket2fd(cfd))->uds = null;
+	events_target(socket2fd(cfd))->udp = null;
 	memcpy(&events_get_sockaddr(cfd)->storage, &usa.storage, sizeof(usa.storage));
 	if (!is_unix && server) {
 		async_sockaddr_str(server, 16, &usa);
@@ -298,6 +303,7 @@ fds_t async_connect(char *hostname, int port, int protocol) {
 	async_wait(fd, 'w');
 	if (getpeername(fd, (is_unix ? (struct sockaddr *)&sa->sun : &sa->sa), &sn) >= 0) {
 		events_target(socket2fd(fd))->uds = uds;
+		events_target(socket2fd(fd))->udp = null;
 		return fd;
 	}
 
-- 
2.43.0


From bf1822f67bcfa92400b4682dd837518b50c8c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:40 +0000
Subject: [PATCH 99/99] fix: an exception thrown in a task could crash while
 its stack was walked

The first function of a task returned to the start of task_done(), to the
unwinder that is the end of whatever function comes before it, and it went on
with the frame of that one beyond the top of the stack.
---
 src/asm.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asm.c b/src/asm.c
index e82c1f0..32a6ec8 100644
--- a/src/asm.c
+++ b/src/asm.c
@@ -61,8 +61,8 @@ tasks_t *task_derive(void *memory, size_t size, bool is_thread) {
 		stack_top -= 32;
 		stack_top &= ~((unsigned long)15);
 		long *p = (long *)(stack_top); /* seek to top of stack */
-		*--p = (long)task_done;          /* if func returns */
-		*--p = (long)task_awaitable;     /* start of function */
+		*--p = 0;                        /* whatever walks the stack ends here */
+		*--p = (long)task_func;          /* start of function */
 		*(long *)handle = (long)p;     /* stack pointer */
 	}
 
@@ -183,8 +183,8 @@ tasks_t *task_derive(void *memory, size_t size, bool is_thread) {
 		stack_top -= 32;
 		stack_top &= ~((size_t)15);
 		int64_t *p = (int64_t *)(stack_top); /* seek to top of stack */
-		*--p = (int64_t)task_done;               /* if coroutine returns */
-		*--p = (int64_t)task_awaitable;
+		*--p = 0;                                /* whatever walks the stack ends here */
+		*--p = (int64_t)task_func;
 		*(int64_t *)handle = (int64_t)p;                  /* stack pointer */
 #if defined(_WIN32) && !defined(NO_TIB)
 		((int64_t *)handle)[30] = (int64_t)handle + size; /* stack base */
-- 
2.43.0

