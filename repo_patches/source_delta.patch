From 132f009d3b1ab1e7b5005c839e28e5be8d2e0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 001/104] fix: thread pool shutdown loses wake-ups and
 unfinished output

The kill flag was set and signalled without the mutexes the workers hold
while they test it, so a worker could go to sleep for good and
zt_threadpool_kill() never returned.  The output workers could also leave
while input workers still produced results.  Stop the input stage first,
then the output stage, each under its own mutex.
---
 src/libzt/zt_threads.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index d42f58e..04546aa 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -280,7 +280,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (TAILQ_EMPTY(&tpool->oput_queue)) {
-            if (tpool->kill) {
+            if (tpool->kill == 2) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -294,7 +294,7 @@ _zt_threadpool_oput_loop(void *args) {
         }
 
         if (entry == NULL) {
-            if (tpool->kill == 1) {
+            if (tpool->kill == 2) {
                 zt_threads_unlock(0, tpool->oput_mutex);
                 zt_threads_end(NULL);
                 return NULL;
@@ -517,18 +517,29 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     int k   = 1;
     int ret = 0;
 
+    /* tell the input threads to die once their queue is empty.  The
+     * flag changes under the mutex its readers hold, so that a thread
+     * can not miss the signal between testing it and waiting. */
+    zt_threads_lock(0, tpool->iput_mutex);
     tpool->kill = 1;
-
-    /* signal all threads, and let them die */
     zt_threads_cond_signal(tpool->iput_cond, 1);
-    zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->iput_mutex);
 
-    for (i = 0; i < tpool->min_threads; i++) {
-        if (_zt_threadpool_cbs.iput_loop) {
+    if (_zt_threadpool_cbs.iput_loop) {
+        for (i = 0; i < tpool->min_threads; i++) {
             zt_threads_join(tpool->iput_threads[i], NULL);
         }
+    }
 
-        if (_zt_threadpool_cbs.oput_loop) {
+    /* nothing feeds the output queue any more, the output threads may
+     * die as soon as they have drained it */
+    zt_threads_lock(0, tpool->oput_mutex);
+    tpool->kill = 2;
+    zt_threads_cond_signal(tpool->oput_cond, 1);
+    zt_threads_unlock(0, tpool->oput_mutex);
+
+    if (_zt_threadpool_cbs.oput_loop) {
+        for (i = 0; i < tpool->min_threads; i++) {
             zt_threads_join(tpool->oput_threads[i], NULL);
         }
     }
-- 
2.43.0


From 5392be9cb0e9906907fbae2b2c61bd66678a0446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 002/104] fix: thread pool construction leaks or closes foreign
 descriptors on failure

When the second pipe could not be created, the constructor closed
oput_fd_sigs (still 0,0: standard input) and leaked the input pipe.
Failing allocations were not noticed at all.
---
 src/libzt/zt_threads.c | 69 ++++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 19 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 04546aa..57b53e0 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -562,36 +562,31 @@ zt_threadpool_kill(zt_threadpool *tpool) {
 zt_threadpool *
 zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_oput) {
     zt_threadpool *tpool;
+    int            i;
 
+    if ((tpool = calloc(sizeof(zt_threadpool), 1)) == NULL) {
+        return NULL;
+    }
+
+    tpool->min_threads     = min_threads;
+    tpool->max_threads     = max_threads;
+    tpool->thread_count    = min_threads;
 
-    tpool               = calloc(sizeof(zt_threadpool), 1);
-    tpool->min_threads  = min_threads;
-    tpool->max_threads  = max_threads;
-    tpool->thread_count = min_threads;
+    tpool->iput_fd_sigs[0] = -1;
+    tpool->iput_fd_sigs[1] = -1;
+    tpool->oput_fd_sigs[0] = -1;
+    tpool->oput_fd_sigs[1] = -1;
 
     if (pipe_iput) {
         if (pipe(tpool->iput_fd_sigs) < 0) {
-            free(tpool);
-            return NULL;
+            goto FAIL;
         }
-    } else {
-        tpool->iput_fd_sigs[0] = -1;
-        tpool->iput_fd_sigs[1] = -1;
     }
 
     if (pipe_oput) {
         if (pipe(tpool->oput_fd_sigs) < 0) {
-            if (pipe_iput) {
-                close(tpool->oput_fd_sigs[0]);
-                close(tpool->oput_fd_sigs[1]);
-            }
-
-            free(tpool);
-            return NULL;
+            goto FAIL;
         }
-    } else {
-        tpool->oput_fd_sigs[0] = -1;
-        tpool->oput_fd_sigs[1] = -1;
     }
 
     tpool->iput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
@@ -604,8 +599,44 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
         tpool->oput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
     }
 
+    /* without callbacks there are no locks and conditions to be had */
+    if (tpool->iput_threads == NULL ||
+        (_zt_threadpool_cbs.oput_loop && tpool->oput_threads == NULL) ||
+        (_zt_threads_lock_cbs.alloc && (tpool->iput_mutex == NULL || tpool->oput_mutex == NULL)) ||
+        (_zt_threads_cond_cbs.alloc && (tpool->iput_cond == NULL || tpool->oput_cond == NULL))) {
+        goto FAIL;
+    }
+
     TAILQ_INIT(&tpool->iput_queue);
     TAILQ_INIT(&tpool->oput_queue);
 
     return tpool;
+
+FAIL:
+    if (tpool->oput_cond) {
+        zt_threads_cond_free(tpool->oput_cond);
+    }
+    if (tpool->iput_cond) {
+        zt_threads_cond_free(tpool->iput_cond);
+    }
+    if (tpool->oput_mutex) {
+        zt_threads_free_lock(tpool->oput_mutex, 0);
+    }
+    if (tpool->iput_mutex) {
+        zt_threads_free_lock(tpool->iput_mutex, 0);
+    }
+    free(tpool->oput_threads);
+    free(tpool->iput_threads);
+
+    for (i = 0; i < 2; i++) {
+        if (tpool->iput_fd_sigs[i] >= 0) {
+            close(tpool->iput_fd_sigs[i]);
+        }
+        if (tpool->oput_fd_sigs[i] >= 0) {
+            close(tpool->oput_fd_sigs[i]);
+        }
+    }
+
+    free(tpool);
+    return NULL;
 } /* zt_threadpool_init */
-- 
2.43.0


From ad0ce25c4b8ff6969f600f3bf8ce690840772af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 003/104] fix: thread pool insertion crashes when it can not
 allocate

---
 src/libzt/zt_threads.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 57b53e0..ee9d3d1 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -396,7 +396,9 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
+        return -1;
+    }
     entry->data = data;
 
     zt_threads_lock(0, tpool->iput_mutex);
@@ -421,7 +423,9 @@ zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     int                  i   = 0;
     int                  ret = 0;
 
-    entry       = calloc(sizeof(zt_threadpool_entry), 1);
+    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
+        return -1;
+    }
     entry->data = data;
 
     zt_threads_lock(0, tpool->oput_mutex);
-- 
2.43.0


From 57431b1867b72e036177759e75cec43adb19536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 004/104] fix: resetting the thread pool callbacks keeps the
 finalize callback

---
 src/libzt/zt_threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index ee9d3d1..7ea1b54 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -229,6 +229,7 @@ zt_threadpool_set_callbacks(struct zt_threadpool_callbacks *cbs) {
         _zt_threadpool_cbs.init        = NULL;
         _zt_threadpool_cbs.iput_worker = NULL;
         _zt_threadpool_cbs.oput_worker = NULL;
+        _zt_threadpool_cbs.finalize    = NULL;
 
         return 0;
     }
-- 
2.43.0


From 1f1b73132172fb75a99c50581a590d90a1579b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 005/104] fix: a full notification pipe dead-locks the thread
 pool

Insertions wrote to the pipe while holding the queue mutex; a reader that
fetches an item per byte then waits for the mutex forever.
---
 src/libzt/zt_threads.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 7ea1b54..820dc27 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -406,14 +406,16 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     {
         TAILQ_INSERT_TAIL(&tpool->iput_queue, entry, next);
         zt_threads_cond_signal(tpool->iput_cond, 0);
+    }
+    zt_threads_unlock(0, tpool->iput_mutex);
 
-        if (tpool->iput_fd_sigs[1] >= 0) {
-            if (write(tpool->iput_fd_sigs[1], &i, 1) < 0) {
-                ret = -1;
-            }
+    /* not under the mutex: the write blocks while the pipe is full, and
+     * its reader may need the mutex before it gets to read more */
+    if (tpool->iput_fd_sigs[1] >= 0) {
+        if (write(tpool->iput_fd_sigs[1], &i, 1) < 0) {
+            ret = -1;
         }
     }
-    zt_threads_unlock(0, tpool->iput_mutex);
 
     return ret;
 }
@@ -433,14 +435,16 @@ zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     {
         TAILQ_INSERT_TAIL(&tpool->oput_queue, entry, next);
         zt_threads_cond_signal(tpool->oput_cond, 0);
+    }
+    zt_threads_unlock(0, tpool->oput_mutex);
 
-        if (tpool->oput_fd_sigs[1] >= 0) {
-            if (write(tpool->oput_fd_sigs[1], &i, 1) < 0) {
-                ret = -1;
-            }
+    /* not under the mutex: the write blocks while the pipe is full, and
+     * its reader may need the mutex before it gets to read more */
+    if (tpool->oput_fd_sigs[1] >= 0) {
+        if (write(tpool->oput_fd_sigs[1], &i, 1) < 0) {
+            ret = -1;
         }
     }
-    zt_threads_unlock(0, tpool->oput_mutex);
 
     return ret;
 }
-- 
2.43.0


From 5273f9ea7c6f1866e598e2758f328b76c41de0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 006/104] fix: log prefixes and source location are literal
 text, not directives

A '%' in the host name, program name, file or function name of a record was
interpreted by the vfprintf() that writes it.
---
 src/libzt/zt_log/log_private.c | 37 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 7a56223..58afdba 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -62,6 +62,20 @@ zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     return result;
 }
 
+/* text that becomes part of the generated format must not be taken for
+ * conversion directives: dst needs room for up to twice the length of src */
+static void
+fmt_cat_literal(char * dst, const char * src) {
+    dst += strlen(dst);
+    for (; *src; src++) {
+        if (*src == '%') {
+            *dst++ = '%';
+        }
+        *dst++ = *src;
+    }
+    *dst = '\0';
+}
+
 char*
 zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, const char * function, zt_log_level level, unsigned int opts) {
     size_t len  = 0;
@@ -87,22 +101,23 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         if (gethostname(sbuf, 254) == -1) {
             sprintf(sbuf, "*hostname*");
         }
+        sbuf[254] = '\0';
         t    = strchr(sbuf, '.');
         if (t) {
             *t = '\0';
         }
-        len += strlen(sbuf) + 1;    /* sbuf + space */
+        len += (strlen(sbuf) * 2) + 1;    /* sbuf (escaped) + space */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, sbuf);
+        fmt_cat_literal(buff, sbuf);
         if ((opts > ZT_LOG_WITH_SYSNAME)) {
             strcat(buff, " ");
         }
     }
 
     if (opts & ZT_LOG_WITH_PROGNAME) {
-        len += strlen(zt_progname(NULL, 0)); /* progname */
+        len += strlen(zt_progname(NULL, 0)) * 2; /* progname (escaped) */
         buff = zt_realloc(char, buff, len);
-        strcat(buff, zt_progname(NULL, 0));
+        fmt_cat_literal(buff, zt_progname(NULL, 0));
     }
 
     if (opts & ZT_LOG_WITH_PID) {
@@ -130,18 +145,18 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
     }
     strcat(buff, fmt);
     if (((file) && (line > -1) && (function))) {
-        char * nbuff = NULL;
         size_t nlen  = 13;    /* ': in  at (:)' + null */
 
-        nlen += strlen(file);
-        nlen += strlen(function);
+        nlen += strlen(file) * 2;
+        nlen += strlen(function) * 2;
         nlen += 10;    /* length of a int to str */
-        nbuff = zt_calloc(char, nlen); /* mem_calloc(nlen, sizeof(char)); */
-        sprintf(nbuff, ": in %s at (%s:%d)", function, file, line);
         len  += nlen;
         buff  = zt_realloc(char, buff, len);
-        strcat(buff, nbuff);
-        zt_free(nbuff);
+        strcat(buff, ": in ");
+        fmt_cat_literal(buff, function);
+        strcat(buff, " at (");
+        fmt_cat_literal(buff, file);
+        sprintf(buff + strlen(buff), ":%d)", line);
     }
     strcat(buff, "\n");
     return buff;
-- 
2.43.0


From 07c3b22301f74b6c7a803d008e18a0a05190d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 007/104] fix: threads logging with a date share localtime's
 static result

---
 src/libzt/zt_log/log_private.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 58afdba..056e948 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -85,10 +85,16 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
     buff = (char*)zt_calloc(char, len);  /* mem_calloc(len, sizeof(char)); */
 
     if (opts & ZT_LOG_WITH_DATE) {
-        char   sbuf[255];
-        time_t tt = time(NULL);
-
-        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", localtime(&tt));
+        char      sbuf[255];
+        time_t    tt = time(NULL);
+        struct tm tm;
+
+# ifdef WIN32
+        tm   = *localtime(&tt);
+# else
+        localtime_r(&tt, &tm);     /* localtime's result is shared by all threads */
+# endif
+        len += strftime(sbuf, 254, "%b %d %H:%M:%S ", &tm);
 
         buff = zt_realloc(char, buff, len);
         sprintf(buff, "%s", sbuf);
-- 
2.43.0


From 44c8615766ca220da62d4c179b5f1af3d026c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 008/104] fix: a file logger that cannot be opened is not
 leaked

---
 src/libzt/zt_log/log_file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_log/log_file.c b/src/libzt/zt_log/log_file.c
index 1882afd..b1f5709 100644
--- a/src/libzt/zt_log/log_file.c
+++ b/src/libzt/zt_log/log_file.c
@@ -86,6 +86,7 @@ zt_log_file(char * file, int fopts, int lopts) {
     }
     if (!this->file) {
         fprintf(stderr, "Could not open file %s: %s\n", file, strerror(errno));
+        zt_free(result);
         return NULL;
     }
 
-- 
2.43.0


From 12951abd3d6db9283d1776ac7e7fc687b1e6570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:26 +0000
Subject: [PATCH 009/104] fix: zt_log_lstrerror logs the error string and one
 record

glibc's strerror_r returns the string, which need not be in the buffer: every
call logged an extra record and used uninitialised memory as its format.
---
 src/libzt/zt_log.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index b17559b..7f40f62 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -264,9 +264,12 @@ EXIT:
 
 void
 zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * fmt, ...) {
-    va_list ap;
-    size_t llen;
-    char    * nfmt;
+    va_list      ap;
+    size_t       llen;
+    char       * nfmt;
+    char       * pos;
+    char         ebuf[256] = "";
+    const char * estr      = ebuf;
 
     if (!log && ((log = zt_log_get_logger()) == NULL)) {
         zt_log_set_debug_info(NULL, -1, NULL);
@@ -278,17 +281,32 @@ zt_log_lstrerror(zt_log_ty * log, zt_log_level level, int errnum, const char * f
         return;
     }
 
-    llen           = strlen(fmt);
-
+#if defined(__GLIBC__) && defined(_GNU_SOURCE)
+    estr = strerror_r(errnum, ebuf, sizeof(ebuf));  /* need not use ebuf */
+#else
+    if (strerror_r(errnum, ebuf, sizeof(ebuf)) != 0) {
+        snprintf(ebuf, sizeof(ebuf), "Unknown error %d", errnum);
+    }
+#endif
 
-    nfmt           = (char*)malloc(llen + 256);
+    llen = strlen(fmt);
+    if ((nfmt = (char*)malloc(llen + 2 + (strlen(estr) * 2) + 1)) == NULL) {
+        fprintf(stderr, "Could not allocate memory for log message\n");
+        abort();
+    }
     memcpy(nfmt, fmt, llen);
-    nfmt[llen]     = ':';
-    nfmt[llen + 1] = ' ';
-
-    if (strerror_r(errnum, nfmt + (llen + 2), 255 - 2) != 0) {
-      zt_log_lprintf(log, zt_log_crit, "Could not capture error string");
+    pos    = nfmt + llen;
+    *pos++ = ':';
+    *pos++ = ' ';
+
+    /* the error string is text, not part of the format */
+    for (; *estr; estr++) {
+        if (*estr == '%') {
+            *pos++ = '%';
+        }
+        *pos++ = *estr;
     }
+    *pos = '\0';
 
     va_start(ap, fmt);
     zt_log_lvprintf(log, level, nfmt, ap);
-- 
2.43.0


From a8c7dca15f2bfdd0cc047597be869f9e3307d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:18 +0000
Subject: [PATCH 010/104] fix: default logger is never lost, handed back twice
 or closed twice

- the unlocked fast path re-read the pointer and could return NULL
- zt_log_logger(NULL) decided what to do before it took the lock
- closing an automatically created logger left its exit callback to close it again
---
 src/libzt/zt_log.c | 147 ++++++++++++++++++++++++++++++---------------
 1 file changed, 98 insertions(+), 49 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index 7f40f62..dd375c4 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -29,15 +29,6 @@
 #include "zt_log/log_private.h"
 #include "zt_atexit.h"
 
-static void
-log_atexit(void * data) {
-    zt_log_ty * logp = data;
-
-    if (logp) {
-        zt_log_close(logp);
-    }
-}
-
 /* #undef HAVE_PTHREADS */
 #ifdef HAVE_PTHREADS
 static pthread_mutex_t log_mutex    = PTHREAD_MUTEX_INITIALIZER;
@@ -51,8 +42,12 @@ make_ctx_key(void) {
 }
 
 #define CTX_STATIC
+#define LOG_LOCK()   pthread_mutex_lock(&log_mutex)
+#define LOG_UNLOCK() pthread_mutex_unlock(&log_mutex)
 #else /* ifdef HAVE_PTHREADS */
 #define CTX_STATIC static
+#define LOG_LOCK()
+#define LOG_UNLOCK()
 #endif /* HAVE_PTHREADS */
 
 typedef struct zt_log_ctx_s zt_log_ctx_ty;
@@ -63,8 +58,56 @@ struct zt_log_ctx_s {
 };
 
 
-static zt_log_ty * log_default_ptr = NULL;
-static int         forced          = 0;
+/* loggers created because there was no default; released at exit unless
+ * they have been closed before */
+typedef struct zt_log_auto_s zt_log_auto_ty;
+struct zt_log_auto_s {
+    zt_log_ty      * log;
+    zt_log_auto_ty * next;
+};
+
+static zt_log_ty      * log_default_ptr = NULL;
+static zt_log_auto_ty * log_auto        = NULL;
+static int              log_auto_atexit = 0;
+
+/* log_mutex must be held */
+static void
+log_forget(zt_log_ty * log) {
+    zt_log_auto_ty ** pos;
+
+    if (log_default_ptr == log) {
+        log_default_ptr = NULL;
+    }
+
+    for (pos = &log_auto; *pos; pos = &(*pos)->next) {
+        if ((*pos)->log == log) {
+            zt_log_auto_ty * node = *pos;
+
+            *pos = node->next;
+            free(node);
+            break;
+        }
+    }
+}
+
+static void
+log_atexit(void * data UNUSED) {
+    zt_log_ty * log;
+
+    do {
+        LOG_LOCK();
+        log_auto_atexit = 0;
+        log = log_auto ? log_auto->log : NULL;
+        if (log) {
+            log_forget(log);
+        }
+        LOG_UNLOCK();
+
+        if (log && log->vtbl->destructor) {
+            log->vtbl->destructor(log);
+        }
+    } while (log);
+}
 
 static zt_log_ctx_ty *
 zt_log_get_ctx(void) {
@@ -87,52 +130,53 @@ zt_log_get_ctx(void) {
     return log_ctx_ptr;
 }
 
+/* log_mutex must be held */
 static zt_log_ty *
-zt_log_get_logger(void) {
-    if (!log_default_ptr) {
-#ifdef HAVE_PTHREADS
-        pthread_mutex_lock(&log_mutex);
-#endif
-        /* second check is just to avoid having to have a mutex lock
-         * around the default case of a logger being set
-         */
-        if (!log_default_ptr) {
-            if ((log_default_ptr = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
-                fprintf(stderr, "Could not allocate stderr for logging\n");
-                exit(1);
-            }
-            forced = 1;
-            zt_atexit(log_atexit, log_default_ptr);
-        }
-#ifdef HAVE_PTHREADS
-        pthread_mutex_unlock(&log_mutex);
-#endif
+log_create_default(void) {
+    zt_log_auto_ty * node;
+
+    if ((node = malloc(sizeof(*node))) == NULL ||
+        (node->log = zt_log_stderr(ZT_LOG_WITH_LEVEL)) == NULL) {
+        fprintf(stderr, "Could not allocate stderr for logging\n");
+        abort();
     }
+    node->next      = log_auto;
+    log_auto        = node;
+    log_default_ptr = node->log;
 
-    return log_default_ptr;
+    if (!log_auto_atexit) {
+        log_auto_atexit = 1;
+        zt_atexit(log_atexit, NULL);
+    }
+
+    return node->log;
 }
 
 static zt_log_ty *
-zt_log_set_logger(zt_log_ty * log) {
-    zt_log_ty   * last;
-
-#ifdef HAVE_PTHREADS
-    pthread_mutex_lock(&log_mutex);
-#endif
+zt_log_get_logger(void) {
+    /* a copy: the default may be replaced by another thread at any time */
+    zt_log_ty * log = log_default_ptr;
 
-    last = log_default_ptr;
-    log_default_ptr = log;
+    if (!log) {
+        LOG_LOCK();
+        /* second check is just to avoid having to have a mutex lock
+         * around the default case of a logger being set
+         */
+        if ((log = log_default_ptr) == NULL) {
+            log = log_create_default();
+        }
+        LOG_UNLOCK();
+    }
 
-#ifdef HAVE_PTHREADS
-    pthread_mutex_unlock(&log_mutex);
-#endif
-    return last;
+    return log;
 }
 
 /* this function expects the traditional "If you allocated free it, if
  * you didn't allocate it leave it the fsck alone" model */
 zt_log_ty *
 zt_log_logger(zt_log_ty * log) {
+    zt_log_ty * last;
+
     /* STATES:
      * log == NULL AND default == NULL           : create a new logger
      * log == NULL AND default == <logger>       : replace the current logger with log (NULL)
@@ -140,12 +184,17 @@ zt_log_logger(zt_log_ty * log) {
      * log == <logger> AND default == <logger>   : replace the default logger with log
      */
 
-    /* if log is NULL and there is no default get one */
+    LOG_LOCK();
     if (log == NULL && log_default_ptr == NULL) {
-        return zt_log_get_logger();
+        /* if log is NULL and there is no default get one */
+        last = log_create_default();
+    } else {
+        last            = log_default_ptr;
+        log_default_ptr = log;
     }
+    LOG_UNLOCK();
 
-    return zt_log_set_logger(log);
+    return last;
 }
 
 zt_log_level
@@ -321,9 +370,9 @@ zt_log_close(zt_log_ty * log) {
         return;
     }
 
-    if (log == log_default_ptr) {
-        zt_log_set_logger(NULL);
-    }
+    LOG_LOCK();
+    log_forget(log);
+    LOG_UNLOCK();
 
     if (log->vtbl->destructor) {
         log->vtbl->destructor(log);
-- 
2.43.0


From 567169c47c34585d3ab0c28aa0625634a44b8f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 011/104] fix: a value protected during a collection cycle is
 scanned in that cycle

It was put in front of the scan position, so that the values only it refers to
were released at the end of the cycle.
---
 src/libzt/zt_gc.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index f26593f..6f19882 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -83,8 +83,13 @@ zt_gc_protect(zt_gc_t *gc, void *value)
     mark = (zt_gc_collectable_t    *)value;
 
     gc->clear_white(mark);
-    zt_elist_remove(&mark->list);
-    zt_elist_add(gc->grey, &mark->list);
+    /* the value must be scanned in this cycle, even when the cycle is already
+     * underway, so it goes behind the scan position (or stays there).
+     */
+    if (gc->scan != &mark->list) {
+        zt_elist_remove(&mark->list);
+        zt_elist_add_tail(gc->grey, &mark->list);
+    }
     ZT_BIT_SET(mark->colour, protected);
 }
 
-- 
2.43.0


From 3cbfe9d525724432f4e816a9c33e2790eaa83722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 012/104] fix: marking or unregistering the value to be scanned
 next keeps the scan position in the grey list

---
 src/libzt/zt_gc.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 6f19882..3017129 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -238,10 +238,13 @@ zt_gc_prepare(zt_gc_t *gc UNUSED, void *v)
 }
 
 void
-zt_gc_unregister(zt_gc_t *gc UNUSED, void *v)
+zt_gc_unregister(zt_gc_t *gc, void *v)
 {
     zt_gc_collectable_t * mark = (zt_gc_collectable_t *)v;
 
+    if (gc->scan == &mark->list) {
+        gc->scan = gc->scan->next;
+    }
     zt_elist_remove(&mark->list);
 
     if (++gc->current_allocs < gc->allocs_before_scan) {
@@ -401,8 +404,13 @@ zt_gc_mark(zt_gc_t *gc, void *value)
 
     if (!is_protected(mark) && gc->is_white(mark)) {
         gc->clear_white(mark);
-        zt_elist_remove(&mark->list);
-        zt_elist_add_tail(gc->grey, &mark->list);
+        /* a value that was unprotected is still in the grey list: moving the
+         * one that is to be scanned next would skip those after it.
+         */
+        if (gc->scan != &mark->list) {
+            zt_elist_remove(&mark->list);
+            zt_elist_add_tail(gc->grey, &mark->list);
+        }
         return TRUE;
     }
     return FALSE;
-- 
2.43.0


From 56f9158f89a7317d67754cede06999d593bb9b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 013/104] fix: zt_gc_destroy releases the collector itself

---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index 3017129..ad5bbdd 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -226,7 +226,7 @@ zt_gc_destroy(zt_gc_t *gc)
         gc->release_fn(gc, gc->private_data, (void **)&elt);
     }
 
-    gc->enabled = 1;
+    zt_free(gc);
 }
 
 void
-- 
2.43.0


From 4ee28cbd8ccf89ddfa43f2651d79d053b5c85827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 014/104] fix: zt_mem_pool_release_free_pages counts the pages
 it releases

---
 src/libzt/zt_mem.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 2125bec..1a2ea18 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -336,6 +336,7 @@ zt_mem_pool_release_free_pages(zt_mem_pool *pool)
 
         if (page->num_free_elts == pool->elts_per_page) {
             zt_mem_page_destroy(page);
+            pool->page_frees++;
         }
     }
 
-- 
2.43.0


From 35eb9e22cdecddddc255be478e2919bb20adcbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 015/104] fix: refusing to destroy a memory pool in use
 releases none of its pages

---
 src/libzt/zt_mem.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 1a2ea18..fa747cf 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -351,17 +351,20 @@ zt_mem_pool_destroy(zt_mem_pool **pool)
     zt_elist_t  * ptmp;
     zt_mem_page * page;
 
-    zt_elist_for_each_safe(&(*pool)->page_list, tmp, ptmp) {
+    /* sanity checking: refuse before anything is released */
+    zt_elist_for_each(&(*pool)->page_list, tmp) {
         page = zt_elist_data(tmp, zt_mem_page, page_list);
 
-        /* sanity checking */
         if (page->num_free_elts < (*pool)->elts_per_page) {
             return -1;
-        } else {
-            zt_mem_page_destroy(page);
         }
     }
 
+    zt_elist_for_each_safe(&(*pool)->page_list, tmp, ptmp) {
+        page = zt_elist_data(tmp, zt_mem_page, page_list);
+        zt_mem_page_destroy(page);
+    }
+
     zt_elist_remove(&(*pool)->pool_list);
 
     GLOBAL_zmt.dealloc((*pool)->name);
-- 
2.43.0


From 43bde383d09cfe983f3c3863bf73210911f3412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 016/104] fix: memory pools report a page that cannot be
 allocated instead of using it

---
 src/libzt/zt_mem.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index fa747cf..3293b9f 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -213,7 +213,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
 
     zt_elist_reset(&pool->pool_list);
 
-    pool->name = zt_mem_strdup(name ? name : "*unknown*");
+    if ((pool->name = zt_mem_strdup(name ? name : "*unknown*")) == NULL) {
+        GLOBAL_zmt.dealloc(pool);
+        return NULL;
+    }
     pool->rcache = elts;
     pool->ncache = pcache * epp;
     pool->pcache = pcache;
@@ -240,7 +243,10 @@ zt_mem_pool_init(char *name, ssize_t elts,
     if (npages > 0) {
         /* fill the cache */
         while (npages--) {
-            page = zt_mem_page_alloc(pool);
+            if ((page = zt_mem_page_alloc(pool)) == NULL) {
+                zt_mem_pool_destroy(&pool);
+                return NULL;
+            }
             zt_elist_add_tail(&pool->page_list, &page->page_list);
             pool->page_allocs++;
         }
@@ -264,8 +270,9 @@ zt_mem_pool_alloc(zt_mem_pool *pool)
     if (zt_elist_empty(&pool->free_elt_list) == 1) {
         /* alloc a new page */
         zt_mem_page *page;
-        page = zt_mem_page_alloc(pool);
-        /*  */
+        if ((page = zt_mem_page_alloc(pool)) == NULL) {
+            return NULL;
+        }
         zt_elist_add_tail(&pool->page_list, &page->page_list);
         pool->page_allocs++;
     }
-- 
2.43.0


From babcb39030149fdb9fd9440f171408cdda9f2676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 017/104] fix: a pool group that cannot be completed is
 released, and counts only the pools it has

---
 src/libzt/zt_mem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index 3293b9f..ceda0c1 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -572,12 +572,15 @@ zt_mem_pool_group_init(zt_mem_pool_desc *group, size_t len)
                                             group[i].cb_data,
                                             group[i].flags);
         if (!ngroup->pools[i]) {
-            while (--i) {
+            while (i--) {
                 zt_mem_pool_destroy(&ngroup->pools[i]);
             }
+            zt_free(ngroup->pools);
+            zt_free(ngroup);
             return 0;
         }
     }
+    ngroup->npools = i;
 
     return ngroup;
 }
-- 
2.43.0


From 37fed3cf963f282caeccc6fb90cc321a59899511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 018/104] fix: destroying a subpool unlinks only that subpool
 from its parent

---
 src/libzt/zt_ez_mempool.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index cc6f6be..4b16f97 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -91,7 +91,12 @@ zt_ez_mempool_destroy(zt_ez_mempool *pool) {
     pool_ptr = pool->subpools;
 
     if (pool->parent != NULL) {
-        pool->parent->subpools = NULL;
+        zt_ez_mempool **link = &pool->parent->subpools;
+
+        while (*link != pool) {
+            link = &(*link)->next;
+        }
+        *link = pool->next;
     }
 
     free_chunks(pool->chunks);
-- 
2.43.0


From 71cf586cb7daaa65d0255a4a2d03ab90b4ed586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:06 +0000
Subject: [PATCH 019/104] fix: zt_ez_mempool_strdup registers empty strings
 with the pool

---
 src/libzt/zt_ez_mempool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ez_mempool.c b/src/libzt/zt_ez_mempool.c
index 4b16f97..d28675d 100644
--- a/src/libzt/zt_ez_mempool.c
+++ b/src/libzt/zt_ez_mempool.c
@@ -129,7 +129,7 @@ char *
 zt_ez_mempool_strdup(zt_ez_mempool *pool, const char *s) {
     char *ret = zt_strdup(s);
 
-    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret), free);
+    zt_ez_mempool_add_buffer(pool, (void *)ret, strlen(ret) + 1, free);
 
     return ret;
 }
-- 
2.43.0


From 4b736342ee38414862628c6df64e9db9fa9a1834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 020/104] fix: the logger does not report its own allocation
 failures through itself

---
 src/libzt/zt_log.c             |  4 ++--
 src/libzt/zt_log/log_private.c | 31 ++++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/libzt/zt_log.c b/src/libzt/zt_log.c
index dd375c4..963e175 100644
--- a/src/libzt/zt_log.c
+++ b/src/libzt/zt_log.c
@@ -118,9 +118,9 @@ zt_log_get_ctx(void) {
         (void)pthread_once(&ctx_key_once, make_ctx_key);
         if ((log_ctx_ptr = pthread_getspecific(ctx_key)) == NULL) {
 #endif /* HAVE_PTHREADS */
-        if ((log_ctx_ptr = zt_calloc(zt_log_ctx_ty, 1)) == NULL) {
+        if ((log_ctx_ptr = calloc(1, sizeof(zt_log_ctx_ty))) == NULL) {
             fprintf(stderr, "Could not allocate memory for log context\n");
-            exit(1);
+            abort();
         }
 #ifdef HAVE_PTHREADS
         pthread_setspecific(ctx_key, log_ctx_ptr);
diff --git a/src/libzt/zt_log/log_private.c b/src/libzt/zt_log/log_private.c
index 056e948..584be4a 100644
--- a/src/libzt/zt_log/log_private.c
+++ b/src/libzt/zt_log/log_private.c
@@ -16,6 +16,7 @@
 #endif
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <time.h>
 
 #ifdef HAVE_STRING_H
@@ -50,10 +51,12 @@ zt_log_ty *
 zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     zt_log_ty * result;
 
-    result        = zt_callocs(vptr->size, 1);
+    /* the checked allocation calls report their failures through the log:
+     * they cannot be used to build it */
+    result        = calloc(1, vptr->size);
     if (!result) {
         fprintf(stderr, "Unable to calloc memory for log vtable\n");
-        exit(1);
+        abort();
     }
     result->vtbl  = vptr;
     result->opts  = opts;
@@ -62,6 +65,15 @@ zt_log_new(zt_log_vtbl_ty * vptr, unsigned int opts) {
     return result;
 }
 
+static char *
+fmt_realloc(char * buff, size_t len) {
+    if ((buff = realloc(buff, len)) == NULL) {
+        fprintf(stderr, "Could not allocate memory for log message\n");
+        abort();
+    }
+    return buff;
+}
+
 /* text that becomes part of the generated format must not be taken for
  * conversion directives: dst needs room for up to twice the length of src */
 static void
@@ -82,7 +94,8 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
     char * buff = NULL;
 
     len  = strlen(fmt) + 4;   /* format + seperator + "\n" + null */
-    buff = (char*)zt_calloc(char, len);  /* mem_calloc(len, sizeof(char)); */
+    buff = fmt_realloc(NULL, len);
+    *buff = '\0';
 
     if (opts & ZT_LOG_WITH_DATE) {
         char      sbuf[255];
@@ -96,7 +109,7 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
 # endif
         len += strftime(sbuf, 254, "%b %d %H:%M:%S ", &tm);
 
-        buff = zt_realloc(char, buff, len);
+        buff = fmt_realloc(buff, len);
         sprintf(buff, "%s", sbuf);
     }
 
@@ -113,7 +126,7 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
             *t = '\0';
         }
         len += (strlen(sbuf) * 2) + 1;    /* sbuf (escaped) + space */
-        buff = zt_realloc(char, buff, len);
+        buff = fmt_realloc(buff, len);
         fmt_cat_literal(buff, sbuf);
         if ((opts > ZT_LOG_WITH_SYSNAME)) {
             strcat(buff, " ");
@@ -122,7 +135,7 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
 
     if (opts & ZT_LOG_WITH_PROGNAME) {
         len += strlen(zt_progname(NULL, 0)) * 2; /* progname (escaped) */
-        buff = zt_realloc(char, buff, len);
+        buff = fmt_realloc(buff, len);
         fmt_cat_literal(buff, zt_progname(NULL, 0));
     }
 
@@ -132,14 +145,14 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
 
         sprintf(sbuf, "[%u]", pid);
         len += strlen(sbuf);
-        buff = zt_realloc(char, buff, len);
+        buff = fmt_realloc(buff, len);
         strcat(buff, sbuf);
     }
 
     if (opts & ZT_LOG_WITH_LEVEL) {
         if ((level < zt_log_max) && ((int)level >= zt_log_emerg)) {
             len += strlen(zt_log_level_desc[level].desc) + 2; /* ': ' + level desc */
-            buff = zt_realloc(char, buff, len);
+            buff = fmt_realloc(buff, len);
             if (opts != ZT_LOG_WITH_LEVEL) {
                 strcat(buff, ": ");
             }
@@ -157,7 +170,7 @@ zt_log_gen_fmt(zt_log_ty * log, const char * fmt, const char * file, int line, c
         nlen += strlen(function) * 2;
         nlen += 10;    /* length of a int to str */
         len  += nlen;
-        buff  = zt_realloc(char, buff, len);
+        buff  = fmt_realloc(buff, len);
         strcat(buff, ": in ");
         fmt_cat_literal(buff, function);
         strcat(buff, " at (");
-- 
2.43.0


From e13643f5c586fe62e7a3939996d083a5479ce6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 021/104] fix: splitting a string does not drop pieces that
 could not be allocated

---
 src/libzt/zt_cstr.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 9a78384..6ed56e5 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -920,10 +920,10 @@ zt_cstr_split(const char *str, const char *delim) {
 
     endptr      = NULL;
 
-    str_copy    = strdup(str);
+    str_copy    = zt_strdup(str);
 
     for (tok = strtok_r(str_copy, delim, &endptr); tok != NULL; tok = strtok_r(NULL, delim, &endptr)) {
-        if (zt_ptr_array_add(split_array, (void *)strdup(tok)) < 0) {
+        if (zt_ptr_array_add(split_array, (void *)zt_strdup(tok)) < 0) {
             zt_ptr_array_free(split_array, 1);
             free(str_copy);
             return NULL;
@@ -945,7 +945,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
         return NULL;
     }
 
-    cut_tok    = str_copy = strdup(str);
+    cut_tok    = str_copy = zt_strdup(str);
     keep_delim = keep_delim ? 1 : 0;
 
     while ((cut_tok = strchr(cut_tok, delim))) {
@@ -955,7 +955,7 @@ zt_cstr_cut(const char *str, const int delim, int keep_delim) {
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup((char *)(cut_tok - keep_delim))) < 0) {
+        if (zt_ptr_array_add(cuts, (void *)zt_strdup((char *)(cut_tok - keep_delim))) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -977,7 +977,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         return NULL;
     }
 
-    str_copy = strdup(str);
+    str_copy = zt_strdup(str);
 
     if (str[strlen(str) - 1] == delim) {
         str_copy[ strlen(str) - 1 ] = '\0';
@@ -989,7 +989,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
             break;
         }
 
-        if (zt_ptr_array_add(cuts, (void *)strdup(str_copy)) < 0) {
+        if (zt_ptr_array_add(cuts, (void *)zt_strdup(str_copy)) < 0) {
             zt_ptr_array_free(cuts, 1);
             free(str_copy);
             return NULL;
@@ -998,7 +998,7 @@ zt_cstr_tok(const char *str, const int delim, int keep_delim UNUSED)
         *cut_tok = '\0';
     }
 
-    zt_ptr_array_add(cuts, (void *)strdup(str_copy));
+    zt_ptr_array_add(cuts, (void *)zt_strdup(str_copy));
     free(str_copy);
 
     return cuts;
-- 
2.43.0


From 2220108524b4fad6237df2e1035bed41e09efd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 022/104] fix: string options whose value cannot be copied are
 not reported as set

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 2967df4..5478e19 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -256,7 +256,7 @@ zt_opt_string(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
     if (arg) {
-        *(char **)def[defn].cb_data = (void *)strdup(arg);
+        *(char **)def[defn].cb_data = (void *)zt_strdup(arg);
     }
 
     return args_consumed;
@@ -287,7 +287,7 @@ zt_opt_string_array(int argn, int defn, int * argc, char ** argv, zt_opt_def_t *
             exit(1);
         }
 
-        new_array[offt]             = strdup(arg);
+        new_array[offt]             = zt_strdup(arg);
         new_array[offt + 1]         = NULL;
 
         *(char***)def[defn].cb_data = new_array;
-- 
2.43.0


From 4369c82bb3045b795b3f38bc307804d153c7effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 023/104] fix: a configuration that fails to load is released
 completely

---
 src/libzt/zt_cfg/cfg_ini.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 469a95a..bdda417 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -44,8 +44,7 @@ zt_cfg_ini(char *file, int opts )
     cfg->filename = strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
-        free(cfg->filename);
-        free(cfg);
+        zt_cfg_priv_destructor(cfg);
         cfg = NULL;
     }
 
@@ -208,6 +207,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                 ungetc(c, file);
                 if (!(parse_line(file, &bvv))) {
                     zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    free(bvv.block);
                     return -1;
                 }
                 cfg_insert_bvv(cfg, &bvv);
-- 
2.43.0


From e5e16cbba2e00e09768e91ebc4f10c2628f6ff74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 024/104] fix: an overlong block name in a configuration file
 is a syntax error, not a crash

---
 src/libzt/zt_cfg/cfg_ini.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index bdda417..3d3115d 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -188,7 +188,10 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
                     free(bvv.block);
                     bvv.block = NULL;
                 }
-                parse_block(file, &bvv);
+                if (parse_block(file, &bvv) < 0) {
+                    zt_log_printf(zt_log_err, "Syntax error in config file at line: %d\n", line);
+                    return -1;
+                }
                 cfg_discard_line(file);
                 break;
             case ';':
-- 
2.43.0


From 16c535b70696fc79bae0d4c3323ed67935afb3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 025/104] fix: a read error in a configuration file is not
 taken for its end

---
 src/libzt/zt_cfg/cfg_ini.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 3d3115d..94495e8 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -222,6 +222,9 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
         line++;
     }
     free(bvv.block);
+    if (ferror(file)) {
+        return -1;
+    }
     cfg->numentries = numents;
     return 0;
 } /* parse_file */
-- 
2.43.0


From db8078dca69fa655339d4122858354e296084e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 026/104] fix: a one character value on a last line without
 newline is accepted

---
 src/libzt/zt_cfg/cfg_ini.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index 94495e8..b4d933c 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -128,6 +128,7 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
             /* errno = EPROTO; */    /* Nope no EOF so some sort of protocol error */
             return 0;
         }
+        len++;    /* there was no newline to drop: the value ends at the terminator */
     }
 
     val++;    /* val points to the beginning of value + any white space*/
-- 
2.43.0


From 9572d7c67291cd105069c917cf36f866b9f9e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 027/104] fix: a configuration string that is overwritten is
 released

---
 src/libzt/zt_cfg/cfg_private.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index adb2e97..9e275d7 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -180,6 +180,9 @@ cfg_insert_bvv(struct zt_cfg_ty* cfg, struct cfg_bvv_ty* bvv)
     if (value->v.s != NULL) {
         value->altered = 1;
     }
+    if (value->type == zt_cfg_string) {
+        free(value->v.s);    /* the string being overwritten */
+    }
 
     value->type = get_type(bvv->value, &value->v);
 
-- 
2.43.0


From 684acb9c8d06ce774d78fb4f1106388c6286bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:12 +0000
Subject: [PATCH 028/104] fix: looking up a configuration variable in a cycle
 of references fails instead of hanging

---
 src/libzt/zt_cfg/cfg_private.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 9e275d7..80748e6 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -254,6 +254,8 @@ zt_cfg_priv_get(zt_cfg_ty *cfg, char *block_name,
 {
     struct zt_cfg_block_ty* block = NULL;
     struct zt_cfg_value_ty* value = NULL;
+    struct zt_cfg_value_ty* trail = NULL;
+    int                     hops = 0;
 
     block = get_block(cfg->head, block_name);
     if (!block) {
@@ -267,8 +269,16 @@ zt_cfg_priv_get(zt_cfg_ty *cfg, char *block_name,
     }
 
 
+    trail = value;
     while (value->type == zt_cfg_ref) {
         value = value->v.r;
+        if (hops++ & 1) {
+            trail = trail->v.r;
+        }
+        if (value == trail) {
+            /* a cycle of references has no value */
+            return -1;
+        }
     }
 
     if (value->type != type) {
-- 
2.43.0


From 47c750a4616429422c6c00f2f072cbf275a41d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:46 +0000
Subject: [PATCH 029/104] fix: setting a configuration variable keeps long
 strings and float precision, and a refused set leaks nothing

---
 src/libzt/zt_cfg/cfg_private.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 80748e6..774c2ee 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -214,17 +214,16 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
                 char *variable_name, void *var, zt_cfg_type type)
 {
     struct cfg_bvv_ty bvv;
-
-    bvv.block = strdup(block_name);
-    bvv.variable = strdup(variable_name);
-    bvv.value = zt_calloc(char, BUFMAX);
+    char              number[BUFMAX];
+    char            * text = number;
 
     switch (type) {
         case zt_cfg_int:
-            snprintf(bvv.value, BUFMAX, "%ld", *(long *)var);
+            snprintf(number, BUFMAX, "%ld", *(long *)var);
             break;
         case zt_cfg_float:
-            snprintf(bvv.value, BUFMAX, "%f", *(double *)var);
+            /* enough digits to read the same value back, and always a decimal point */
+            snprintf(number, BUFMAX, "%#.17g", *(double *)var);
             break;
         case zt_cfg_bool:
             if ((*(int *)var == 1) || (*(int *)var == 0)) {
@@ -233,13 +232,17 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             }
         /* FALLTHRU */
         case zt_cfg_string:
-            snprintf(bvv.value, BUFMAX, "%s", *(char **)var);
+            text = *(char **)var;
             break;
         default:
             zt_log_printf(zt_log_err, "Unknown type in cfg variable list");
             return -1;
     }
 
+    bvv.block = strdup(block_name);
+    bvv.variable = strdup(variable_name);
+    bvv.value = strdup(text);
+
     cfg_insert_bvv(cfg, &bvv);
 
     free(bvv.block);
-- 
2.43.0


From b553f63023c36fc9f5fadfecdc5cc1bc91e50a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 030/104] fix: the configuration parser does not ignore
 allocation failures

---
 src/libzt/zt_cfg/cfg_ini.c     | 10 +++++-----
 src/libzt/zt_cfg/cfg_private.c | 14 +++++++-------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_cfg/cfg_ini.c b/src/libzt/zt_cfg/cfg_ini.c
index b4d933c..7b0a949 100644
--- a/src/libzt/zt_cfg/cfg_ini.c
+++ b/src/libzt/zt_cfg/cfg_ini.c
@@ -41,7 +41,7 @@ zt_cfg_ini(char *file, int opts )
 {
     zt_cfg_ty *cfg = zt_cfg_new(&vtbl);
 
-    cfg->filename = strdup(file);
+    cfg->filename = zt_strdup(file);
     cfg->opts = opts;
     if (parse_cfg(cfg) < 0) {
         zt_cfg_priv_destructor(cfg);
@@ -90,7 +90,7 @@ static int parse_block(FILE* file, struct cfg_bvv_ty* bvv)
     }
 
     /* Otherwize we have a block name in buff */
-    bvv->block = strdup(buff);
+    bvv->block = zt_strdup(buff);
     if (bvv->block == NULL) {
         return -1;
     }
@@ -161,8 +161,8 @@ static int parse_line(FILE* file, struct cfg_bvv_ty* bvv)
         /* errno = EPROTO; */
         return 0;
     }
-    bvv->variable = strdup(var);
-    bvv->value = strdup(val);
+    bvv->variable = zt_strdup(var);
+    bvv->value = zt_strdup(val);
     return 1;
 } /* parse_line */
 
@@ -177,7 +177,7 @@ static int parse_file(zt_cfg_ty* cfg, FILE* file)
     zt_assert(cfg);
     memset(&bvv, '\0', sizeof(struct cfg_bvv_ty));
     sprintf(block, "Global");    /* default blockname */
-    bvv.block = strdup(block);
+    bvv.block = zt_strdup(block);
 
     while ((c = fgetc(file)) != EOF) {
         switch (c) {
diff --git a/src/libzt/zt_cfg/cfg_private.c b/src/libzt/zt_cfg/cfg_private.c
index 774c2ee..61c9519 100644
--- a/src/libzt/zt_cfg/cfg_private.c
+++ b/src/libzt/zt_cfg/cfg_private.c
@@ -87,7 +87,7 @@ add_block(struct zt_cfg_ty* cfg, char* name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_block_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = cfg->head;
         cfg->head = new;
     }
@@ -118,7 +118,7 @@ add_variable(struct zt_cfg_block_ty* block, char *name)
     }
     if (!new) {
         new = zt_calloc(struct zt_cfg_value_ty, 1);
-        new->name = strdup(name);
+        new->name = zt_strdup(name);
         new->next = block->head;
         block->head = new;
     }
@@ -159,9 +159,9 @@ get_type(char* value, void* nvalue)
             /* error  */
         }
         value[len] = '\0';
-        *(char **)nvalue = strdup(&value[1]);
+        *(char **)nvalue = zt_strdup(&value[1]);
     } else {
-        *(char **)nvalue = strdup(value);
+        *(char **)nvalue = zt_strdup(value);
     }
 
     return zt_cfg_string;
@@ -239,9 +239,9 @@ zt_cfg_priv_set(zt_cfg_ty *cfg, char *block_name,
             return -1;
     }
 
-    bvv.block = strdup(block_name);
-    bvv.variable = strdup(variable_name);
-    bvv.value = strdup(text);
+    bvv.block = zt_strdup(block_name);
+    bvv.variable = zt_strdup(variable_name);
+    bvv.value = zt_strdup(text);
 
     cfg_insert_bvv(cfg, &bvv);
 
-- 
2.43.0


From 8aad485637192ddc15d82e9d5ec11075f5e4c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 031/104] fix: writing the pid file never closes its descriptor
 twice

---
 src/libzt/zt_daemon.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index 7c2938b..e594d7d 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -146,12 +146,10 @@ zt_writepid(const char* pidF) {
             zt_log_strerror(zt_log_err, errno, "Cannot format to pid file '%s'.", pidF);
         }
 
+        /* an interrupted close() has released the descriptor all the same:
+         * closing it again could close a file another thread just opened */
         int v = close(fd);
-        while (v == -1 && errno == EINTR) {
-            v = close(fd);
-        }
-
-        if (v) {
+        if (v == -1 && errno != EINTR) {
             oVal = -1;
             zt_log_strerror(zt_log_err, errno, "Cannot close pid fd '%s'.", pidF);
         }
-- 
2.43.0


From 9c1f41f150487e9493991219d1addbe0a323ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 032/104] fix: daemonizing without a descriptor limit does not
 close descriptors forever

---
 src/libzt/zt_daemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index e594d7d..6822063 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -64,10 +64,14 @@ zt_daemonize( char *root, mode_t mask, int options UNUSED)
             zt_log_printf(zt_log_emerg, "faild to getlimit(): %s", strerror(errno));
             exit(1);
         }
+        if (rlimits.rlim_cur == RLIM_INFINITY) {
+            /* no limit: close those that could reasonably be open */
+            rlimits.rlim_cur = 65536;
+        }
         for (i = 0; i < rlimits.rlim_cur; i++) {
             if (i > INT_MAX) {
                 /* int cast protection */
-                i = INT_MAX;
+                break;
             }
             close((int)i);
         }                                                  /* Close all of the filehandles */
-- 
2.43.0


From 47ca75c74599b91575e368d0d69e0ff73906f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 033/104] fix: the daemonizing process waits for its own child,
 also when interrupted

---
 src/libzt/zt_daemon.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_daemon.c b/src/libzt/zt_daemon.c
index 6822063..c0090a1 100644
--- a/src/libzt/zt_daemon.c
+++ b/src/libzt/zt_daemon.c
@@ -108,7 +108,9 @@ zt_daemonize( char *root, mode_t mask, int options UNUSED)
         }
     } else {    /* first parent */
         /* wait here for the first child to exit */
-        wait(&status);
+        while (waitpid(pid, &status, 0) == -1 && errno == EINTR) {
+            ;
+        }
         exit(0);
     }
 
-- 
2.43.0


From a9922287b818f0f608c1d531d9502b6739b933a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 034/104] fix: directory creation terminates, tolerates
 concurrent creators and does not report a file as a directory

---
 src/libzt/zt_path.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index 1c54921..bfe863e 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -19,6 +19,7 @@ zt_mkdir(const char * path, mode_t mode, zt_mkdir_flags flags) {
     ssize_t     offt;
     struct stat sbuf;
     ssize_t     pslen;
+    int         parents_done = 0;
 
     errno = 0;
 
@@ -26,11 +27,16 @@ AGAIN:
     if (mkdir(path, mode) != 0) {
 
         if (errno == EEXIST) {
-            return 0;
+            if (stat(path, &sbuf) == 0 && S_ISDIR(sbuf.st_mode)) {
+                return 0;
+            }
+            errno = EEXIST;
+            zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
+            return -1;
         }
 
-        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent)) {
-            /* could not create dir and create parents not set */
+        if (!ZT_BIT_ISSET(flags, zt_mkdir_create_parent) || errno != ENOENT || parents_done) {
+            /* could not create dir and creating parents is not asked for or does not help */
             zt_log_strerror(zt_log_err, errno, "could not create dir: %s", path);
             return -1;
         }
@@ -55,12 +61,13 @@ AGAIN:
                 continue;
             }
 
-            if (mkdir(cpath, mode) != 0) {
+            if (mkdir(cpath, mode) != 0 && errno != EEXIST) {
                 /* Cannot proceed, return error */
                 return -1;
             }
         }
 
+        parents_done = 1;
         goto AGAIN;
     }
 
-- 
2.43.0


From af0cb2f31b159f465f1b3d1add6b71301ca771d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 035/104] fix: searching the base directory of an overlong path
 does not read past its copy

---
 src/libzt/zt_path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_path.c b/src/libzt/zt_path.c
index bfe863e..6173a00 100644
--- a/src/libzt/zt_path.c
+++ b/src/libzt/zt_path.c
@@ -102,7 +102,7 @@ char *zt_find_basedir(const char * path, const char * trigger) {
 
     len = strlen(path);
     memset(lpath, 0, sizeof(lpath));
-    memcpy(lpath, path, MIN(len, sizeof(cpath)));
+    memcpy(lpath, path, MIN(len, sizeof(lpath) - 1));
 
     do {
         memset(cpath, 0, sizeof(cpath));
-- 
2.43.0


From c86a9e720b341568ae75c7231c86ff93e86901dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 036/104] fix: a buffer that was partly drained keeps its bytes
 and allocation when it grows

---
 src/libzt/zt_buf.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index b462599..4f55a7f 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -60,11 +60,14 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
-    if (b->top == NULL) {
-        b->top = b->buf;
+    /* the live bytes move back to the start of the allocation before it is resized */
+    if (b->buf != b->top) {
+        memmove(b->top, b->buf, b->len);
+        b->max += (size_t)((char *)b->buf - (char *)b->top);
+        b->buf  = b->top;
     }
 
-    b->buf = realloc(b->buf, b->len + rlen);
+    b->buf = realloc(b->top, b->len + rlen);
     b->top = b->buf;
     b->max = b->len + rlen;
 
@@ -79,10 +82,12 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
     if (len < b->len) {
         b->len -= len;
-        b->max -= (size_t)((char *)b->top - (char *)b->buf);
+        b->max -= len;
         b->buf  = ((char *)b->buf + len);
     } else {
-        b->len = 0;
+        b->len  = 0;
+        b->max += (size_t)((char *)b->buf - (char *)b->top);
+        b->buf  = b->top;
     }
 
     return b->len;
-- 
2.43.0


From 0de9049c893428385461fb1a4f446601d3ae820d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 037/104] fix: a buffer reports memory it cannot obtain and
 keeps what it held

---
 src/libzt/zt_buf.c | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_buf.c b/src/libzt/zt_buf.c
index 4f55a7f..68defc4 100644
--- a/src/libzt/zt_buf.c
+++ b/src/libzt/zt_buf.c
@@ -53,6 +53,7 @@ zt_buf_length(zt_buf_t * b) {
 int
 zt_buf_expand(zt_buf_t * b, size_t len) {
     size_t rlen;
+    void * buf;
 
     if (len < ZT_BUF_MIN) {
         rlen = ZT_BUF_MIN;
@@ -60,6 +61,10 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         rlen = len;
     }
 
+    if (b->len + rlen < rlen) {
+        return -1;
+    }
+
     /* the live bytes move back to the start of the allocation before it is resized */
     if (b->buf != b->top) {
         memmove(b->top, b->buf, b->len);
@@ -67,8 +72,12 @@ zt_buf_expand(zt_buf_t * b, size_t len) {
         b->buf  = b->top;
     }
 
-    b->buf = realloc(b->top, b->len + rlen);
-    b->top = b->buf;
+    if ((buf = realloc(b->top, b->len + rlen)) == NULL) {
+        return -1;
+    }
+
+    b->buf = buf;
+    b->top = buf;
     b->max = b->len + rlen;
 
     return 0;
@@ -95,8 +104,12 @@ zt_buf_drain(zt_buf_t * b, size_t len) {
 
 int
 zt_buf_add(zt_buf_t * b, void * data, size_t len) {
-    if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+    if (len == 0) {
+        return 0;
+    }
+
+    if (zt_buf_reserve(b, len) != 0) {
+        return -1;
     }
 
     memcpy((void *)((char *)b->buf + b->len), data, len);
@@ -107,7 +120,10 @@ zt_buf_add(zt_buf_t * b, void * data, size_t len) {
 
 int
 zt_buf_add_buf(zt_buf_t * a, zt_buf_t * b) {
-    zt_buf_add(a, b->buf, b->len);
+    if (zt_buf_add(a, b->buf, b->len) != 0) {
+        return -1;
+    }
+
     zt_buf_drain(b, b->len);
     return 0;
 }
@@ -118,6 +134,10 @@ zt_buf_remove(zt_buf_t * b, void * out, size_t olen) {
         olen = b->len;
     }
 
+    if (olen == 0) {
+        return 0;
+    }
+
     memcpy(out, b->buf, olen);
     zt_buf_drain(b, olen);
 
@@ -127,7 +147,7 @@ zt_buf_remove(zt_buf_t * b, void * out, size_t olen) {
 int
 zt_buf_reserve(zt_buf_t * b, size_t len) {
     if (len > zt_buf_unused_sz(b)) {
-        zt_buf_expand(b, len);
+        return zt_buf_expand(b, len);
     }
 
     return 0;
@@ -153,7 +173,10 @@ zt_buf_iov_add(zt_buf_t * b, zt_iov_t * vec, int n_vec) {
     size_t tlen;
 
     tlen = zt_buf_iov_len(vec, n_vec);
-    zt_buf_reserve(b, tlen);
+
+    if (zt_buf_reserve(b, tlen) != 0) {
+        return -1;
+    }
 
     for (i = 0; i < n_vec; i++) {
         zt_buf_add(b, vec[i].iov_data, vec[i].iov_len);
-- 
2.43.0


From c23bf76aacc2e71176021ed255e2f35a4d9deefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 038/104] fix: deleting from a table keeps the earlier entries
 of the same chain

---
 src/libzt/zt_table.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0888d7a..0fcd1c9 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -252,6 +252,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
             }
         }
 
+        prev = node;
         node = node->next;
     }
     errno = ENOENT;
-- 
2.43.0


From d1f6a9ce02277b87b813286dadeea3bda8714d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 039/104] fix: every hash selects a bucket inside the table,
 whatever the size hint

---
 src/libzt/zt_table.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index 0fcd1c9..aba8895 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -28,13 +28,20 @@ unsigned long powers_of_2[] = { 2,            4,         8,
                                 128,          256,       512,
                                 1024,         2048,      4096,
                                 8192,         16384,     32768,
-                                65535,        131072,    262144,
+                                65536,        131072,    262144,
                                 524288,       1048576,   2097152,
                                 4194304,      8388608,   16777216,
                                 33554432,     67108864,  134217728,
                                 268435456,    536870912, 1073741824,
                                 2147483648UL, UINT_MAX };
 
+static size_t
+bucket_of(unsigned long hash, uint8_t nbits, size_t num_buckets)
+{
+    ZT_HASH_SUB32_MASK(hash, nbits);
+    return hash & (num_buckets - 1);
+}
+
 struct table_node {
     void              * datum;
     size_t              datum_len;
@@ -100,7 +107,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->cdata = cdata;
 
     if (flags & ZT_TABLE_SIZE_USE_HINT) {
-        nbuckets = hint;
+        /* the bucket mask needs a power of two */
+        for (nbuckets = powers_of_2[0]; nbuckets < hint && nbuckets <= powers_of_2[30]; nbuckets <<= 1) {
+            ;
+        }
     } else {
         int i = 0;
         int len = sizeof_array(powers_of_2);
@@ -169,7 +179,7 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
     struct table_node * node;
     struct table_node * nn;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_of(nkey, h->nbits, h->num_buckets);
     /* ZT_LOG_XDEBUG("for key %d hash key is: %d", (int)key, nkey); */
 
     nn = h->buckets[nkey];
@@ -208,7 +218,7 @@ zt_table_get(zt_table *h, const void *key, size_t key_len)
     nkey = h->func(key, key_len, h->cdata);
     skey = nkey;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_of(nkey, h->nbits, h->num_buckets);
     node = h->buckets[nkey];
 
     while (node) {
@@ -232,7 +242,7 @@ zt_table_del(zt_table *h, const void *key, size_t key_len)
     unsigned long       nkey = h->func(key, key_len, h->cdata);
     unsigned long       skey = nkey;
 
-    ZT_HASH_SUB32_MASK(nkey, h->nbits);
+    nkey = bucket_of(nkey, h->nbits, h->num_buckets);
 
     prev = node = h->buckets[nkey];
 
-- 
2.43.0


From 84743389b40eb174a01b230ee1fa86887b9d0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 040/104] fix: tables report memory they cannot obtain

---
 src/libzt/zt_table.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index aba8895..e6443cb 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -125,7 +125,10 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
 
     table->nbits = nbits(nbuckets - 1);
 
-    table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *));
+    if ((table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *))) == NULL) {
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
 
     table->buckets = zt_mem_heap_get_data(table->table_heap);
     memset(table->buckets, 0, nbuckets * sizeof(struct table_node *));
@@ -137,10 +140,17 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     }
 
 
-    snprintf(tname, sizeof_array(tname), "%s (table node pool)", name);
+    snprintf(tname, sizeof_array(tname), "%s (table node pool)", table->name);
     table->node_pool = zt_mem_pool_init(tname, nbuckets,
                                         sizeof(struct table_node), NULL, NULL, 0);
 
+    if (table->node_pool == NULL) {
+        zt_free(table->name);
+        zt_mem_heap_destroy(&table->table_heap);
+        zt_mem_pool_release((void **)&table);
+        return NULL;
+    }
+
     table->num_buckets = nbuckets;
     table->cmp = cmp;
     table->func = func;
@@ -195,7 +205,9 @@ zt_table_set(zt_table *h, const void *key, size_t key_len, const void *datum, si
         }
     }
 
-    node = (struct table_node *)zt_mem_pool_alloc(h->node_pool);
+    if ((node = (struct table_node *)zt_mem_pool_alloc(h->node_pool)) == NULL) {
+        return -1;
+    }
 
     node->next = h->buckets[nkey];
     node->hash_key = skey;
@@ -280,7 +292,9 @@ zt_table_copy(zt_table *t1, zt_table *t2)
         while (node) {
             any = 1;
             /* if(!table_get(t2, node->key)) { */
-            zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len);
+            if (zt_table_set(t2, node->key, node->key_len, node->datum, node->datum_len) < 0) {
+                return -1;
+            }
             node = node->next;
         }
     }
-- 
2.43.0


From d395d0fbfc6e67265753515cbf063e12e5553cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:35 +0000
Subject: [PATCH 041/104] fix: the stock table comparisons look at exactly the
 bytes of the key

---
 src/libzt/zt_table.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index e6443cb..c8ec22f 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -328,7 +328,7 @@ unsigned long
 zt_table_hash_int(const void *key, size_t key_len, void *cdata UNUSED)
 {
     unsigned char * skey = (unsigned char *)key;
-    unsigned long   nkey = zt_hash32_buff(&skey, key_len, ZT_HASH32_INIT);
+    unsigned long   nkey = zt_hash32_buff(&skey, MIN(key_len, sizeof(skey)), ZT_HASH32_INIT);
 
     return nkey;
 }
@@ -337,7 +337,7 @@ int
 zt_table_compare_int(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if (lhs_len == rhs_len) {
-        if (memcmp(&lhs, &rhs, lhs_len) == 0) {
+        if (memcmp(&lhs, &rhs, MIN(lhs_len, sizeof(lhs))) == 0) {
             return 1;
         }
     }
@@ -386,7 +386,7 @@ int
 zt_table_compare_buff(const void *lhs, size_t lhs_len, const void *rhs, size_t rhs_len, void *cdata UNUSED)
 {
     if(lhs_len == rhs_len) {
-        if (strncmp((char *)lhs, (char *)rhs, lhs_len) == 0) {
+        if (memcmp(lhs, rhs, lhs_len) == 0) {
             return 1;
         }
     }
-- 
2.43.0


From 3b23968915a52e911eeda0f0f530e16c0f21f203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 042/104] fix: a set counts only the members it really holds

---
 src/libzt/zt_set.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 453263c..1f954f3 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -14,7 +14,11 @@ zt_set_init(int (*match)(const void *key1, size_t key1_size,
 
     set = zt_malloc(zt_set, 1);
 
-    set->tbl = zt_table_init(NULL, zt_table_hash_int, match, 128, 0, cdata);
+    if ((set->tbl = zt_table_init(NULL, zt_table_hash_int, match, 128, 0, cdata)) == NULL) {
+        zt_free(set);
+        return NULL;
+    }
+
     set->match = match;
     set->destroy = destroy;
     set->length = 0;
@@ -49,12 +53,17 @@ zt_set_destroy(zt_set *set)
 int
 zt_set_insert(zt_set *set, const void *data, size_t len)
 {
+    int ret;
+
     if (zt_set_is_member(set, data, len)) {
         return 1;
     }
 
-    set->length++;
-    return zt_table_set(set->tbl, (void *)data, len, (void *)data, len);
+    if ((ret = zt_table_set(set->tbl, (void *)data, len, (void *)data, len)) == 0) {
+        set->length++;
+    }
+
+    return ret;
 }
 
 int zt_set_remove(zt_set *set, void **data)
-- 
2.43.0


From 133e1685b6521cdc478773164968a6fca68765ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 043/104] fix: removing a set member finds it, and removing a
 non-member does not change the count

---
 src/libzt/zt_set.c | 37 +++++++++++++++++++++++++++++++------
 src/libzt/zt_set.h |  2 +-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index 1f954f3..a400fd3 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -66,18 +66,43 @@ zt_set_insert(zt_set *set, const void *data, size_t len)
     return ret;
 }
 
+struct _set_pair {
+    zt_set * s1;
+    zt_set * s2;
+};
+
+struct _set_find {
+    zt_set * set;
+    void   * data;
+    size_t   len;
+};
+
+static int _find(void *key UNUSED, size_t key_len UNUSED, void *datum, size_t datum_len, void *param)
+{
+    struct _set_find * f = (struct _set_find *)param;
+
+    if (datum == f->data) {
+        f->len = datum_len;
+        return 1;
+    }
+    return 0;
+}
+
 int zt_set_remove(zt_set *set, void **data)
 {
-    *data = zt_table_del(set->tbl, *data, 0);
+    struct _set_find f = { set, *data, 0 };
+
+    /* the caller does not pass the length, it is stored with the member */
+    if (zt_table_for_each(set->tbl, _find, &f) == 0) {
+        *data = NULL;
+        return 1;
+    }
+
+    *data = zt_table_del(set->tbl, f.data, f.len);
     set->length--;
     return 0;
 }
 
-struct _set_pair {
-    zt_set * s1;
-    zt_set * s2;
-};
-
 static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
 {
     struct _set_pair * p;
diff --git a/src/libzt/zt_set.h b/src/libzt/zt_set.h
index 3f5be60..134abec 100644
--- a/src/libzt/zt_set.h
+++ b/src/libzt/zt_set.h
@@ -13,7 +13,7 @@ struct zt_set {
 };
 typedef int (*zt_set_iterator)(void *, void *);
 
-#define zt_set_size(set) ((set)->size)
+#define zt_set_size(set) ((set)->length)
 
 zt_set *zt_set_init(int (*match)(const void *key1, size_t key1_len, const void *key2, size_t key2_len, void *cdata),
                     void (*destroy)(void *data),
-- 
2.43.0


From b01fe88a7c36f800e2c8ddb71627e7cbd1ecf353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:29 +0000
Subject: [PATCH 044/104] fix: set algebra into a set that already holds a
 member still adds the rest

---
 src/libzt/zt_set.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libzt/zt_set.c b/src/libzt/zt_set.c
index a400fd3..ca143ec 100644
--- a/src/libzt/zt_set.c
+++ b/src/libzt/zt_set.c
@@ -103,25 +103,35 @@ int zt_set_remove(zt_set *set, void **data)
     return 0;
 }
 
+/* an element that is already there does not end the iteration, a failed insertion does */
+static int _add(zt_set *set, void *data, size_t len)
+{
+    int ret = zt_set_insert(set, data, len);
+
+    return ret < 0 ? ret : 0;
+}
+
 static int _union(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
 {
     struct _set_pair * p;
 
     p = (struct _set_pair *)param;
 
-    return zt_set_insert(p->s2, datum, datum_len);
+    return _add(p->s2, datum, datum_len);
 }
 
 int zt_set_union(zt_set *setu, const zt_set *set1, const zt_set *set2)
 {
+    int              ret;
     struct _set_pair s = { NULL, NULL };
 
     s.s2 = setu;
 
-    zt_table_for_each(set1->tbl, _union, &s);
-    zt_table_for_each(set2->tbl, _union, &s);
+    if ((ret = zt_table_for_each(set1->tbl, _union, &s)) != 0) {
+        return ret;
+    }
 
-    return 0;
+    return zt_table_for_each(set2->tbl, _union, &s);
 }
 
 static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datum_len, void *param)
@@ -131,7 +141,7 @@ static int _intersect(void *key UNUSED, size_t key_len, void *datum, size_t datu
     p = (struct _set_pair *)param;
 
     if (zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        return _add(p->s2, datum, datum_len);
     }
     return 0;
 }
@@ -153,7 +163,7 @@ static int _difference(void *key UNUSED, size_t key_len, void *datum, size_t dat
     p = (struct _set_pair *)param;
 
     if (!zt_set_is_member(p->s1, datum, datum_len)) {
-        return zt_set_insert(p->s2, datum, datum_len);
+        return _add(p->s2, datum, datum_len);
     }
     return 0;
 }
-- 
2.43.0


From 665e047002fb5b63c5ca804aca27e3387114a6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 045/104] fix: threads that generate random identifiers do not
 share or repeat a generator state

---
 src/libzt/zt_uuid.c | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index c1ac0ac..00b93dd 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -31,6 +31,7 @@ static int base62_decode_int64(const char * in, size_t ilen, uint64_t * out);
 #include <pthread.h>
 static pthread_key_t   ctx_key;
 static pthread_once_t  ctx_key_once = PTHREAD_ONCE_INIT;
+static pthread_mutex_t seed_mutex   = PTHREAD_MUTEX_INITIALIZER;
 
 static void
 make_ctx_key(void) {
@@ -62,19 +63,38 @@ zt_uuid4_get_ctx(void) {
     return state;
 }
 
+/* every generator state gets a seed of its own, also within one clock tick */
+static void
+seed_ctx(zt_random_state * state) {
+    static uint32_t  count = 0;
+    uint32_t         seed[4];
+    struct timeval   now = { 0, 0 };
+
+    (void)gettimeofday(&now, NULL);
+    seed[0] = (uint32_t)now.tv_sec;
+    seed[1] = (uint32_t)now.tv_usec;
+    seed[2] = (uint32_t)getpid();
+#ifdef HAVE_PTHREADS
+    (void)pthread_mutex_lock(&seed_mutex);
+#endif /* HAVE_PTHREADS */
+    seed[3] = ++count;
+#ifdef HAVE_PTHREADS
+    (void)pthread_mutex_unlock(&seed_mutex);
+#endif /* HAVE_PTHREADS */
+    zt_random_initstate(state, seed, sizeof_array(seed));
+}
+
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
-    static zt_random_state  * state;
-    static int                rand_initialized  = 0;
+    zt_random_state         * state;
 
     zt_assert(uuid);
 
     state = zt_uuid4_get_ctx();
 
-    if (rand_initialized == 0) {
-        zt_random_srandom(state, (uint32_t)time(NULL));
-        rand_initialized = 1;
+    if (state->initialized == 0) {
+        seed_ctx(state);
     }
 
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes, &v, 4);
-- 
2.43.0


From 74ffeea1dc78840f2b19663b7c98317cfadd491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 046/104] fix: zt_time calls the timed function the requested
 number of times

---
 src/libzt/zt_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index ac1c97c..1b8dd21 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -127,7 +127,7 @@ zt_time(int n, struct time_result *tv, void *(*test)(void *), void *data)
     getrusage(RUSAGE_SELF, &rbefore);
 
     if (test && n) {
-        for (i = 0; i <= n; i++) {
+        for (i = 0; i < n; i++) {
             ret = test(data);
         }
     }
-- 
2.43.0


From 5e2829deaf62fce610cd4c1a8e992e7f1952f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 047/104] fix: zt_time_calibrate records the overhead it
 measured

---
 src/libzt/zt_time.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_time.c b/src/libzt/zt_time.c
index 1b8dd21..6df25d3 100644
--- a/src/libzt/zt_time.c
+++ b/src/libzt/zt_time.c
@@ -15,6 +15,8 @@
 #include <sys/resource.h>
 #endif
 
+#include <string.h>
+
 #include "zt_time.h"
 #include "zt_log.h"
 #include "zt_assert.h"
@@ -103,7 +105,12 @@ static struct time_result _calibration_time = { { 0, 0 }, { 0, 0 } };
 void
 zt_time_calibrate(void)
 {
-    zt_time(0, &_calibration_time, NULL, NULL);
+    struct time_result overhead;
+
+    /* the overhead is measured on its own, not less an earlier calibration */
+    memset(&_calibration_time, 0, sizeof(_calibration_time));
+    zt_time(0, &overhead, NULL, NULL);
+    _calibration_time = overhead;
 }
 
 /*!
-- 
2.43.0


From d634284704c3899c88545eed42a27bbad78a1289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 048/104] fix: zt_gc_destroy keeps its position to itself

The loop variable was static, so collectors destroyed by two threads at the
same time released each other's objects.
---
 src/libzt/zt_gc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_gc.c b/src/libzt/zt_gc.c
index ad5bbdd..141bd6e 100644
--- a/src/libzt/zt_gc.c
+++ b/src/libzt/zt_gc.c
@@ -201,7 +201,7 @@ zt_gc_init(void *private_data,
 void
 zt_gc_destroy(zt_gc_t *gc)
 {
-    static zt_elist_t * elt;
+    zt_elist_t * elt;
     zt_elist_t * dont_use;
 
     if (gc->enabled != 0) {
-- 
2.43.0


From 89e1f9f9bdc27704f2ccf72b2fb9b593378db7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 049/104] fix: formatting a floating point value does not share
 its directive

The directive cvt_f builds was static: threads formatting values with another
precision or conversion changed each other's output.
---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 21dbf4c..2c2e929 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -511,7 +511,7 @@ cvt_f(int code, void * value,
       ssize_t width, ssize_t precision)
 {
     char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
-    static char fmt[] = "%.dd?";
+    char        fmt[] = "%.dd?";
 
     if (precision < 0) {
         precision = 6;
-- 
2.43.0


From f98e2e409187e3c17dcaef0a615fefd9bd7f22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 050/104] fix: the list of memory pools is safe to use from
 several threads

Creating, destroying or looking up pools in two threads at once corrupted the
list all pools are kept in.
---
 src/libzt/zt_mem.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index ceda0c1..b75e5d3 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -9,6 +9,18 @@
 #include "zt_mem.h"
 #include "zt_atexit.h"
 
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+
+static pthread_mutex_t pools_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+# define POOLS_LOCK()   pthread_mutex_lock(&pools_mutex)
+# define POOLS_UNLOCK() pthread_mutex_unlock(&pools_mutex)
+#else /* HAVE_PTHREADS */
+# define POOLS_LOCK()
+# define POOLS_UNLOCK()
+#endif /* not HAVE_PTHREADS */
+
 /*
  * FIXME: threads will need these wrapped
  */
@@ -184,12 +196,17 @@ zt_mem_pool_init(char *name, ssize_t elts,
     size_t        npage_size;
     size_t        npages;
     size_t        pcache;
+    int           need_atexit;
 
     x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages);
 
-    if (!mem_atexit) {
+    POOLS_LOCK();
+    need_atexit = !mem_atexit;
+    mem_atexit = 1;
+    POOLS_UNLOCK();
+
+    if (need_atexit) {
         zt_atexit(zt_mem_release, NULL);
-        mem_atexit = 1;
     }
 
     if (elts > 0) {
@@ -252,7 +269,9 @@ zt_mem_pool_init(char *name, ssize_t elts,
         }
     }
 
+    POOLS_LOCK();
     zt_elist_add_tail(&pools, &pool->pool_list);
+    POOLS_UNLOCK();
     return pool;
 } /* zt_mem_pool_init */
 
@@ -372,7 +391,9 @@ zt_mem_pool_destroy(zt_mem_pool **pool)
         zt_mem_page_destroy(page);
     }
 
+    POOLS_LOCK();
     zt_elist_remove(&(*pool)->pool_list);
+    POOLS_UNLOCK();
 
     GLOBAL_zmt.dealloc((*pool)->name);
     (*pool)->name = NULL;
@@ -485,10 +506,12 @@ zt_mem_pools_display(int offset, int flags)
     zt_mem_pool * pool;
 
     printf(BLANK "Pools { \n", INDENT(offset));
+    POOLS_LOCK();
     zt_elist_for_each(&pools, tmp) {
         pool = zt_elist_data(tmp, zt_mem_pool, pool_list);
         zt_mem_pool_display(offset + 1, pool, flags);
     }
+    POOLS_UNLOCK();
     printf(BLANK "}\n", INDENT(offset));
 }
 
@@ -533,6 +556,7 @@ zt_mem_pool_get(char *name)
 
     nlen = strlen(name);
 
+    POOLS_LOCK();
     zt_elist_for_each(&pools, tmp) {
         zt_mem_pool * pool;
         size_t        olen;
@@ -541,9 +565,11 @@ zt_mem_pool_get(char *name)
         olen = strlen(pool->name);
 
         if (olen == nlen && (strncmp(name, pool->name, nlen) == 0)) {
+            POOLS_UNLOCK();
             return pool;
         }
     }
+    POOLS_UNLOCK();
 
     return 0;
 }
-- 
2.43.0


From b22a4887f15193e6a032bc76e184d74a6aa9d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 051/104] fix: tables may be created and destroyed by several
 threads

Every table takes its header from one pool, which two threads could create
twice, hand out twice or corrupt.
---
 src/libzt/zt_table.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_table.c b/src/libzt/zt_table.c
index c8ec22f..6ce9b1c 100644
--- a/src/libzt/zt_table.c
+++ b/src/libzt/zt_table.c
@@ -10,6 +10,18 @@
 #include "zt.h"
 #include "zt_internal.h"
 
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+
+/* all tables take their header from one pool */
+static pthread_mutex_t header_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+# define HEADER_LOCK()   pthread_mutex_lock(&header_mutex)
+# define HEADER_UNLOCK() pthread_mutex_unlock(&header_mutex)
+#else /* HAVE_PTHREADS */
+# define HEADER_LOCK()
+# define HEADER_UNLOCK()
+#endif /* not HAVE_PTHREADS */
 
 #define DEFAULT_BUCKETS 512
 static uint8_t
@@ -77,6 +89,14 @@ zt_table_pool_init(long elts)
     return table_mem_pool;
 }
 
+static void
+header_release(zt_table *table)
+{
+    HEADER_LOCK();
+    zt_mem_pool_release((void **)&table);
+    HEADER_UNLOCK();
+}
+
 zt_table *
 zt_table_init(char *name, zt_table_hash_func_cb func,
               zt_table_compare_cb cmp, size_t hint, int flags,
@@ -93,13 +113,17 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
         return NULL;
     }
 
+    HEADER_LOCK();
     table_mem_pool = zt_mem_pool_get(ZT_DEFAULT_TABLE_POOL);
 
     if (table_mem_pool == NULL) {
         table_mem_pool = zt_table_pool_init(2);
     }
 
-    if ( (table = (zt_table *)zt_mem_pool_alloc(table_mem_pool)) == NULL) {
+    table = (zt_table *)zt_mem_pool_alloc(table_mem_pool);
+    HEADER_UNLOCK();
+
+    if (table == NULL) {
         return NULL;
     }
 
@@ -126,7 +150,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     table->nbits = nbits(nbuckets - 1);
 
     if ((table->table_heap = zt_mem_heap_init(0, nbuckets * sizeof(struct table_node *))) == NULL) {
-        zt_mem_pool_release((void **)&table);
+        header_release(table);
         return NULL;
     }
 
@@ -147,7 +171,7 @@ zt_table_init(char *name, zt_table_hash_func_cb func,
     if (table->node_pool == NULL) {
         zt_free(table->name);
         zt_mem_heap_destroy(&table->table_heap);
-        zt_mem_pool_release((void **)&table);
+        header_release(table);
         return NULL;
     }
 
@@ -178,7 +202,7 @@ zt_table_destroy(zt_table *h)
 
     zt_mem_pool_destroy(&h->node_pool);
     zt_mem_heap_destroy(&h->table_heap);
-    zt_mem_pool_release((void **)&h);
+    header_release(h);
 }
 
 int
-- 
2.43.0


From 359dae91620b25fb0992ff1effe0a95c6d29d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 052/104] fix: exit callbacks may be registered by several
 threads

Two threads registering at the same time could lose a callback.
---
 src/libzt/zt_atexit.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_atexit.c b/src/libzt/zt_atexit.c
index a8f0d89..dd23ba7 100644
--- a/src/libzt/zt_atexit.c
+++ b/src/libzt/zt_atexit.c
@@ -18,6 +18,18 @@
 # include <stdlib.h>
 #endif
 
+#ifdef HAVE_PTHREADS
+# include <pthread.h>
+
+static pthread_mutex_t cb_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+# define CB_LOCK()   pthread_mutex_lock(&cb_mutex)
+# define CB_UNLOCK() pthread_mutex_unlock(&cb_mutex)
+#else /* HAVE_PTHREADS */
+# define CB_LOCK()
+# define CB_UNLOCK()
+#endif /* not HAVE_PTHREADS */
+
 #include "zt.h"
 #include "zt_internal.h"
 
@@ -28,7 +40,6 @@ struct zt_atexit_cb {
     void        * data;
 };
 
-/* FIXME: global needs thread safety */
 static zt_stack(cb_stack);
 
 static void
@@ -36,14 +47,19 @@ _atexit_call(void) {
     zt_stack_t          * se;
     struct zt_atexit_cb * cb;
 
+    CB_LOCK();
     while(!zt_stack_empty(&cb_stack)) {
         se = zt_stack_pop(&cb_stack);
         cb = zt_stack_data(se, struct zt_atexit_cb, member);
+        /* the callback may register another one */
+        CB_UNLOCK();
         if(cb && cb->fn) {
             cb->fn(cb->data);
             zt_free(cb);
         }
+        CB_LOCK();
     }
+    CB_UNLOCK();
 }
 
 void
@@ -54,12 +70,14 @@ zt_atexit(void (*fn)(void * data), void * data) {
 
     cb = zt_calloc(struct zt_atexit_cb, 1);
 
+    cb->fn = fn;
+    cb->data = data;
+
+    CB_LOCK();
     if(zt_stack_empty(&cb_stack)) {
         atexit(_atexit_call);
     }
 
-    cb->fn = fn;
-    cb->data = data;
-
     zt_stack_push(&cb_stack, &cb->member);
+    CB_UNLOCK();
 }
-- 
2.43.0


From 6237df6a11d7ed682a5b62d5a57de3fa356a2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 053/104] fix: looking up an IPv4 network reads no more than
 the 32 prefix lengths

With networks of every prefix length in the table the search did not stop at
the end of the list of prefix lengths.
---
 src/libzt/zt_ipv4_tbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7c37ce5..61cb934 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -261,7 +261,7 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return tbl->any;
     }
 
-    while (1) {
+    while (i < 32) {
         uint32_t addr_masked;
         uint32_t key;
 
-- 
2.43.0


From c621412996e7cab842535f52161548e97fd57d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 054/104] fix: a text that is no IPv4 network is refused

A text without a prefix length was read past its end or left without a
terminator, something that is no address became 255.255.255.255 and a negative
prefix length read in front of the mask table.
---
 src/libzt/zt_ipv4_tbl.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 61cb934..7b7a4f3 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -336,6 +336,7 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
     char *str_cp;
     char *cp;
     int   bitlen = 32;
+    in_addr_t ipaddr;
 
     if (!str || !outaddr || !outbitlen) {
         return -1;
@@ -361,15 +362,30 @@ zt_ipv4_str2net(const char *str, uint32_t * outaddr, int *outbitlen)
 
         memcpy(save, str, cp - str_cp);
     } else {
+        if (strlen(str) > MAXLINE - 1) {
+            free(save);
+            free(str_cp);
+            return -1;
+        }
+
         bitlen = 32;
-        memcpy(save, str, MAXLINE);
+        strcpy(save, str);
     }
 
     if (bitlen > 32) {
         bitlen = 32;
     }
 
-    *outaddr = ntohl(inet_addr(save));
+    ipaddr = inet_addr(save);
+
+    if (bitlen < 0 ||
+        (ipaddr == INADDR_NONE && strcmp(save, "255.255.255.255") != 0)) {
+        free(save);
+        free(str_cp);
+        return -1;
+    }
+
+    *outaddr = ntohl(ipaddr);
     *outbitlen = bitlen;
 
     free(save);
-- 
2.43.0


From d34bb2faf6676a170de87bff292d16933da46538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 055/104] fix: an IPv4 table keeps its networks in its own
 memory

Every table took hash rows and nodes from the pools of whichever table was
created first: a larger table wrote past the end of its rows, and destroying
one table pulled memory from under another. No network was ever released, each
lookup from a string leaked its address, and failed additions leaked as well.
---
 src/libzt/zt_ipv4_tbl.c | 118 ++++++++++++++++++++++++++++------------
 src/libzt/zt_ipv4_tbl.h |   1 +
 2 files changed, 84 insertions(+), 35 deletions(-)

diff --git a/src/libzt/zt_ipv4_tbl.c b/src/libzt/zt_ipv4_tbl.c
index 7b7a4f3..2828cc8 100644
--- a/src/libzt/zt_ipv4_tbl.c
+++ b/src/libzt/zt_ipv4_tbl.c
@@ -14,14 +14,39 @@ static uint32_t netmask_tbl[] = {
     0xFFFFFFFC, 0xFFFFFFFE, 0xFFFFFFFF
 };
 
+/*
+ * a network that was added from a string: it is made from and released
+ * to the pools of its own table
+ */
+struct zt_ipv4_net {
+    zt_ipv4_node        node;
+    zt_ipv4_addr        addr;
+    struct zt_ipv4_net *next;
+};
+
 void
 zt_ipv4_tbl_destroy(zt_ipv4_tbl *tbl)
 {
+    int i;
+
     if (!tbl) {
         return;
     }
 
     if (tbl->pools) {
+        while (tbl->nets) {
+            struct zt_ipv4_net *net = tbl->nets;
+
+            tbl->nets = net->next;
+            zt_mem_pool_release((void **)&net);
+        }
+
+        for (i = 0; i < 32; i++) {
+            if (tbl->tbl[i]) {
+                zt_mem_pool_release((void **)&tbl->tbl[i]);
+            }
+        }
+
         zt_mem_pool_group_destroy(tbl->pools);
     }
 
@@ -33,27 +58,33 @@ zt_ipv4_tbl_init(uint32_t size)
 {
     zt_ipv4_tbl             * tbl;
     uint32_t                  rsize = size ? size : 128;
-    static zt_mem_pool_desc   pools[4];
+    zt_mem_pool_desc          pools[5];
 
     memset(pools, 0, sizeof(pools));
 
-    pools[0].name = "zt_ipv4_node_hash";
+    /* in the order zt_mem_pool_group_alloc is to try them */
+    pools[0].name = "zt_ipv4_node";
     pools[0].elts = 1;
-    pools[0].size = sizeof(zt_ipv4_node *) * rsize;
+    pools[0].size = sizeof(zt_ipv4_node);
 
-    pools[1].name = "zt_ipv4_node";
+    pools[1].name = "zt_ipv4_addr";
     pools[1].elts = 1;
-    pools[1].size = sizeof(zt_ipv4_node);
+    pools[1].size = sizeof(zt_ipv4_addr);
 
-    pools[2].name = "zt_ipv4_addr";
+    pools[2].name = "zt_ipv4_net";
     pools[2].elts = 1;
-    pools[2].size = sizeof(zt_ipv4_addr);
+    pools[2].size = sizeof(struct zt_ipv4_net);
+
+    pools[3].name = "zt_ipv4_node_hash";
+    pools[3].elts = 1;
+    pools[3].size = sizeof(zt_ipv4_node *) * rsize;
 
     if (!(tbl = calloc(sizeof(zt_ipv4_tbl), 1))) {
         return NULL;
     }
 
-    if (!(tbl->pools = zt_mem_pool_group_init(pools, 3))) {
+    if (!(tbl->pools = zt_mem_pool_group_init(pools, 4))) {
+        free(tbl);
         return NULL;
     }
 
@@ -62,13 +93,30 @@ zt_ipv4_tbl_init(uint32_t size)
 }
 
 
+static int
+addr_set(zt_ipv4_addr *addr, const char *netstr)
+{
+    int      bitlen = 32;
+    uint32_t ipaddr;
+
+    if (zt_ipv4_str2net(netstr, &ipaddr, &bitlen)) {
+        return -1;
+    }
+
+    addr->addr = ipaddr;
+    addr->mask = netmask_tbl[bitlen];
+    addr->bitlen = bitlen;
+    addr->addr = addr->addr & addr->mask;
+    addr->broadcast = addr->addr | (0xFFFFFFFF & ~addr->mask);
+
+    return 0;
+}
+
 zt_ipv4_addr   *
 zt_ipv4_addr_frm_str(const char *netstr)
 {
     zt_ipv4_addr *addr = NULL;
     zt_mem_pool  *pool = NULL;
-    int           bitlen = 32;
-    uint32_t      ipaddr;
 
     if (!netstr) {
         return NULL;
@@ -78,20 +126,15 @@ zt_ipv4_addr_frm_str(const char *netstr)
         return NULL;
     }
 
-    if (zt_ipv4_str2net(netstr, &ipaddr, &bitlen)) {
+    if (!(addr = zt_mem_pool_alloc(pool))) {
         return NULL;
     }
 
-    if (!(addr = zt_mem_pool_alloc(pool))) {
+    if (addr_set(addr, netstr)) {
+        zt_mem_pool_release((void **)&addr);
         return NULL;
     }
 
-    addr->addr = ipaddr;
-    addr->mask = netmask_tbl[bitlen];
-    addr->bitlen = bitlen;
-    addr->addr = addr->addr & addr->mask;
-    addr->broadcast = addr->addr | (0xFFFFFFFF & ~addr->mask);
-
     return addr;
 }
 
@@ -115,6 +158,7 @@ zt_ipv4_node_str_init(const char *netstr)
     }
 
     if (!(addr = zt_ipv4_addr_frm_str(netstr))) {
+        zt_mem_pool_release((void **)&node);
         return NULL;
     }
 
@@ -128,7 +172,6 @@ int
 zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 {
     zt_ipv4_node *node_slot;
-    zt_mem_pool  *pool;
     uint32_t      key;
     uint8_t       blen;
     int           is_in;
@@ -146,17 +189,15 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
         return 0;
     }
 
-    if (!(pool = zt_mem_pool_get("zt_ipv4_node_hash"))) {
-        return -1;
-    }
-
     is_in = 0;
     blen = node->addr->bitlen - 1;
 
     if (tbl->tbl[blen] == NULL) {
         zt_ipv4_node **hash_entry;
 
-        if (!(hash_entry = zt_mem_pool_alloc(pool))) {
+        hash_entry = zt_mem_pool_group_alloc(tbl->pools,
+                                             sizeof(zt_ipv4_node *) * tbl->sz);
+        if (!hash_entry) {
             return -1;
         }
 
@@ -211,7 +252,7 @@ zt_ipv4_tbl_add_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 zt_ipv4_node   *
 zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
 {
-    zt_ipv4_node *ipv4_node = NULL;
+    struct zt_ipv4_net *net;
 
     if (!tbl || !netstr) {
         return NULL;
@@ -224,15 +265,23 @@ zt_ipv4_tbl_add_frm_str(zt_ipv4_tbl * tbl, const char *netstr)
         return tbl->any;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (!(net = zt_mem_pool_group_alloc(tbl->pools, sizeof(*net)))) {
         return NULL;
     }
 
-    if (zt_ipv4_tbl_add_node(tbl, ipv4_node)) {
+    net->node.addr = &net->addr;
+    net->node.next = NULL;
+
+    if (addr_set(&net->addr, netstr) ||
+        zt_ipv4_tbl_add_node(tbl, &net->node)) {
+        zt_mem_pool_release((void **)&net);
         return NULL;
     }
 
-    return ipv4_node;
+    net->next = tbl->nets;
+    tbl->nets = net;
+
+    return &net->node;
 }
 
 int
@@ -291,22 +340,21 @@ zt_ipv4_tbl_search_node(zt_ipv4_tbl * tbl, zt_ipv4_node * node)
 zt_ipv4_node   *
 zt_ipv4_tbl_search_from_str(zt_ipv4_tbl * tbl, const char *netstr)
 {
-    zt_ipv4_node *ipv4_node = NULL;
-    zt_ipv4_node *matched = NULL;
+    zt_ipv4_node ipv4_node;
+    zt_ipv4_addr addr;
 
     if (!tbl || !netstr) {
         return NULL;
     }
 
-    if (!(ipv4_node = zt_ipv4_node_str_init(netstr))) {
+    if (addr_set(&addr, netstr)) {
         return NULL;
     }
 
-    matched = zt_ipv4_tbl_search_node(tbl, ipv4_node);
-
-    zt_mem_pool_release((void **)&ipv4_node);
+    ipv4_node.addr = &addr;
+    ipv4_node.next = NULL;
 
-    return matched;
+    return zt_ipv4_tbl_search_node(tbl, &ipv4_node);
 }
 
 /*
diff --git a/src/libzt/zt_ipv4_tbl.h b/src/libzt/zt_ipv4_tbl.h
index 459e1d2..15cd96c 100644
--- a/src/libzt/zt_ipv4_tbl.h
+++ b/src/libzt/zt_ipv4_tbl.h
@@ -25,6 +25,7 @@ struct zt_ipv4_tbl {
     uint8_t            in[32];
     uint32_t           sz;
     zt_ipv4_node      *any;
+    struct zt_ipv4_net *nets;    /* networks the table made itself */
 };
 
 /**
-- 
2.43.0


From 814ccde51ff6b201487157a9f4985bb34f0e78a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 056/104] fix: deleting a member of a pointer array reports
 that it did

zt_ptr_array_del always failed, and the member moved into the place of a
deleted one was not looked at, so that the same pointer could stay behind.
---
 src/libzt/zt_ptr_array.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 2adf433..4352c6e 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -95,6 +95,7 @@ zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_
 int
 zt_ptr_array_del(zt_ptr_array * array, void * data) {
     int32_t i;
+    int     ret = -1;
 
     if (array == NULL || data == NULL) {
         return -1;
@@ -104,6 +105,8 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
         if (array->array[i] == data) {
             zt_ptr_array_move_idx_to_idx(array, array->count - 1, i);
             array->count--;
+            i--;    /* look at the member that was moved here, too */
+            ret = 0;
 
             if (array->free_cb) {
                 array->free_cb(data);
@@ -111,7 +114,7 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
         }
     }
 
-    return -1;
+    return ret;
 }
 
 int
-- 
2.43.0


From 19a3f3073299e81121c207d55528a95f20b3303c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 057/104] fix: pointer arrays refuse an index that is out of
 range

The last member of an empty array, other negative indices and the place behind
the last member were read or written outside the array.
---
 src/libzt/zt_ptr_array.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 4352c6e..4d5701b 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -79,11 +79,11 @@ zt_ptr_array_resize(zt_ptr_array * array, int32_t expand) {
 
 int
 zt_ptr_array_move_idx_to_idx(zt_ptr_array * array, int32_t src_idx, int32_t dst_idx) {
-    if (src_idx > array->count) {
+    if (src_idx < 0 || src_idx >= array->count) {
         return -1;
     }
 
-    if (dst_idx > array->count) {
+    if (dst_idx < 0 || dst_idx >= array->count) {
         return -1;
     }
 
@@ -185,11 +185,11 @@ zt_ptr_array_free(zt_ptr_array * array, int free_members) {
 void *
 zt_ptr_array_get_idx(zt_ptr_array * array, int32_t idx) {
     if (idx == -1) {
-        /* return the last element */
-        return array->array[array->count - 1];
+        /* the last element */
+        idx = array->count - 1;
     }
 
-    if (idx >= array->count) {
+    if (idx < 0 || idx >= array->count) {
         return NULL;
     }
 
-- 
2.43.0


From 3ca4e6af02bea88e31885a158207584fdc192dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 058/104] fix: appending a pointer array to itself ends

---
 src/libzt/zt_ptr_array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_ptr_array.c b/src/libzt/zt_ptr_array.c
index 4d5701b..b5eebc6 100644
--- a/src/libzt/zt_ptr_array.c
+++ b/src/libzt/zt_ptr_array.c
@@ -120,12 +120,16 @@ zt_ptr_array_del(zt_ptr_array * array, void * data) {
 int
 zt_ptr_array_cat(zt_ptr_array * dst, zt_ptr_array * src) {
     int32_t i;
+    int32_t count;
 
     if (dst == NULL || src == NULL) {
         return -1;
     }
 
-    for (i = 0; i < src->count; i++) {
+    /* src may be dst, which is growing */
+    count = src->count;
+
+    for (i = 0; i < count; i++) {
         if (zt_ptr_array_add(dst, zt_ptr_array_get_idx(src, i))) {
             return -1;
         }
-- 
2.43.0


From ca59afcebff9e4dd5295cb1fe28e96d5821b2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 059/104] fix: an array whose size cannot be represented is not
 created

The product of length and element size overflowed and a far smaller array was
allocated.
---
 src/libzt/zt_array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index f10084c..0772035 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -26,7 +26,7 @@ zt_array_new(size_t len, size_t size)
 
     if (len > 0) {
         arrayrep_init(array, len, size,
-                      zt_calloc(char, len * size));
+                      (char *)zt_calloc_p(len, size));
     } else {
         arrayrep_init(array, len, size, NULL);
     }
-- 
2.43.0


From 532ad670960f09ffed3babfe85bc1dd8a3f768f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 060/104] fix: replacing the data of an array releases what it
 held

---
 src/libzt/zt_array.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 0772035..d69faf9 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -46,8 +46,12 @@ void
 zt_array_set_data(zt_array_t array, char *data,
                   size_t len, size_t size, int copy)
 {
+    char * odata;
+
     zt_assert(array);
 
+    odata = array->data;
+
     if (copy) {
         arrayrep_init(array, len, size,
                       zt_calloc(char, len * size));
@@ -55,6 +59,10 @@ zt_array_set_data(zt_array_t array, char *data,
     } else {
         arrayrep_init(array, len, size, data);
     }
+
+    if (odata && odata != array->data) {
+        zt_free(odata);
+    }
 }
 
 zt_array_t
-- 
2.43.0


From c316f45c5062374ccf15c7c6e8ca9053cd76f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 061/104] fix: growing an array that was shortened to nothing
 keeps its memory

It allocated anew and leaked the old memory; realloc serves an array without
any just as well.
---
 src/libzt/zt_array.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index d69faf9..7432a09 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -89,9 +89,7 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(array);
     zt_assert(len > 0);
 
-    if (array->length == 0) {
-        array->data = zt_calloc(char, len * array->size);
-    } else if (len > 0) {
+    if (len > 0) {
         array->data = zt_realloc(char, array->data, len * array->size);
         /* lear the added space */
         if(len > array->length) {
-- 
2.43.0


From 184889417e8ad8c103ac284b4896ce138949e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 062/104] fix: truncating a byte stream takes its position back

The position stayed behind the end, so the next write computed a huge amount
of room and wrote past the memory; the same holds for data that replaces the
stream's.
---
 src/libzt/zt_bstream.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index a3b97c1..fc65199 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -50,6 +50,7 @@ size_t
 zt_bstream_truncate(zt_bstream_t bs)
 {
     zt_assert(bs);
+    bs->offt = 0;
     return zt_array_set_length(bs->data, 0);
 }
 
@@ -59,6 +60,7 @@ zt_bstream_set_data(zt_bstream_t bs, char *data, int len, char copy)
     zt_assert(bs);
 
     zt_array_set_data(bs->data, data, len, sizeof(char), copy);
+    bs->offt = 0;
 }
 
 void
-- 
2.43.0


From b5d998f2b316b009b2224151ed6008057ca36c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 063/104] fix: the clone of a byte stream keeps its byte order

---
 src/libzt/zt_bstream.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_bstream.c b/src/libzt/zt_bstream.c
index fc65199..ed017bd 100644
--- a/src/libzt/zt_bstream.c
+++ b/src/libzt/zt_bstream.c
@@ -107,6 +107,7 @@ zt_bstream_clone(zt_bstream_t bs)
     clone = zt_calloc(struct zt_bstream, 1);
     clone->data = zt_array_copy(bs->data, zt_array_length(bs->data));
     clone->offt = bs->offt;
+    clone->flipendian = bs->flipendian;
 
     return clone;
 }
-- 
2.43.0


From aa99e496c5a1ab7cbaa45ecf12c05e6561fc1b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:58 +0000
Subject: [PATCH 064/104] fix: joining an empty list leaves a list as it was

The head of the empty list was linked in as if it were an element.
---
 src/libzt/zt_list.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_list.h b/src/libzt/zt_list.h
index 0cbafcf..981c16d 100644
--- a/src/libzt/zt_list.h
+++ b/src/libzt/zt_list.h
@@ -96,6 +96,10 @@ zt_elist_join(zt_elist_t *head, zt_elist_t *list)
     zt_elist_t *last = list->prev;
     zt_elist_t *at = head->next;
 
+    if (zt_elist_empty(list)) {
+        return;
+    }
+
     first->prev = head;
     head->next = first;
 
-- 
2.43.0


From ea363eaf616765fb7b9b99b51dfa7b2764317e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:35 +0000
Subject: [PATCH 065/104] fix: the directory of something in the root directory
 is the root directory

zt_cstr_dirname returned the whole path for it, and read in front of an empty
path.
---
 src/libzt/zt_cstr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 6ed56e5..ee1a9d3 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -641,7 +641,8 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
 
     /* if the end of the path is the PATH_SEPERATOR then skip over it */
     ps_len = strlen(PATH_SEPERATOR);
-    if (strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
+    if (strlen(path) > (size_t)ps_len &&
+        strcmp(&path[strlen(path) - ps_len], PATH_SEPERATOR) == 0) {
         end = end - ps_len;
     }
 
@@ -649,7 +650,7 @@ zt_cstr_dirname(char *npath, size_t len, const char *path) {
         /* there is no path seperator */
         zt_cstr_copy(".", 0, -1, npath, len);
         return npath;
-    } else {
+    } else if (end > 0) {
         end = end - 1;
     }
 
-- 
2.43.0


From b0ce70173bcdace0d688d10cfc8a682b72e70687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 066/104] fix: the program path is searched in every entry of
 PATH

The last entry was never looked at, and an empty entry took characters of its
neighbour.
---
 src/libzt/zt_progname.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 6416362..d708f8d 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -121,8 +121,8 @@ zt_progpath(char *prog) {
         if(_progpath[0] == '\0' || strcmp(_progpath, ".") == 0) {
             /* the passed in prog did not include a path */
             char        * path;
-            size_t        offt = 0;
-            ssize_t       base = 0;
+            size_t        offt;
+            size_t        base;
             size_t        len;
             char        * tpath;
             struct stat   sbuf;
@@ -143,14 +143,14 @@ zt_progpath(char *prog) {
             }
 
             len = strlen(path);
-            while(offt < len) {
-                ssize_t   sofft;
-
-                if ((sofft = zt_cstr_any(path, offt, -1, ENV_SEPERATOR)) < 0) {
-                    break;
+            for(base = 0; base < len; base = offt + 1) {
+                offt = base + strcspn(&path[base], ENV_SEPERATOR);
+                if (offt == base) {
+                    /* empty entry */
+                    continue;
                 }
-                offt = (size_t)sofft;
-                tpath = zt_cstr_catv(path, base, offt-1,
+
+                tpath = zt_cstr_catv(path, (int)base, (int)(offt - 1),
                                      PATH_SEPERATOR, 0, -1,
                                      prog, 0, -1, NULL);
 
@@ -161,8 +161,6 @@ zt_progpath(char *prog) {
                     return _progpath;
                 }
                 zt_free(tpath);
-                base = offt+1;
-                offt++;
             }
 
             /* if still no path */
-- 
2.43.0


From c7383f3045f346792aac369ca0647291c37ffcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 067/104] fix: a program started as ./name is not looked up in
 PATH

---
 src/libzt/zt_progname.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index d708f8d..8caecdd 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -128,6 +128,10 @@ zt_progpath(char *prog) {
             struct stat   sbuf;
 
             path = getenv("PATH");
+            if (strstr(prog, PATH_SEPERATOR) != NULL) {
+                /* ./prog is in the current directory, whatever PATH says */
+                path = "";
+            }
 
             if (!path) {
                 /* try to use system specific methods to get the path */
-- 
2.43.0


From 869fa0aca89e49e42f64141bfc2b4f31b13bc547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 068/104] fix: the name of a test that lacks a part is not
 found

---
 src/libzt/zt_unit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index c7a6d02..7fffb75 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -356,7 +356,8 @@ zt_unit_run_by_name(struct zt_unit    * unit,
 
     targetv = str_split(name, ".", &count);
 
-    if (count <= 0 || count > 2) {
+    if (count <= 0 || count > 2 ||
+        targetv[0] == NULL || (count == 2 && targetv[1] == NULL)) {
         result = -1;
         goto done;
     }
-- 
2.43.0


From a156a9d44f0465615f2c51ba9c0385c231a77805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 069/104] fix: running a test again releases its previous error
 text

---
 src/libzt/zt_unit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 7fffb75..5c063ae 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -262,6 +262,10 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
     zt_assert(test);
 
     test->success = FALSE;
+    if (test->error) {
+        zt_free(test->error);
+        test->error = NULL;
+    }
 
     yaml_dict(test->name, 4);
 
-- 
2.43.0


From 7b3efee1fb8242a91e846c87a74dcafe53bb6e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 070/104] fix: taking from an empty queue yields nothing

zt_queue_dequeue handed out the head of an empty queue as if it were an
element; zt_stack_pop returns NULL.
---
 src/libzt/zt_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_queue.h b/src/libzt/zt_queue.h
index 40de772..103430b 100644
--- a/src/libzt/zt_queue.h
+++ b/src/libzt/zt_queue.h
@@ -23,6 +23,10 @@ zt_queue_dequeue(zt_queue_t *queue)
 {
     zt_queue_t * elt;
 
+    if (zt_queue_empty(queue)) {
+        return NULL;
+    }
+
     elt = zt_elist_get_prev(queue);
     zt_elist_remove(elt);
     return (elt);
-- 
2.43.0


From 24690c8391424a330057122defb4a70e9bcd5b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:13 +0000
Subject: [PATCH 071/104] fix: assertions of earlier runs of a test are not
 counted again

---
 src/libzt/zt_unit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_unit.c b/src/libzt/zt_unit.c
index 5c063ae..21ad59a 100644
--- a/src/libzt/zt_unit.c
+++ b/src/libzt/zt_unit.c
@@ -262,6 +262,8 @@ zt_unit_run_test(struct zt_unit         * unit UNUSED,
     zt_assert(test);
 
     test->success = FALSE;
+    test->assertions = 0;      /* of this run: the suite and the unit keep the totals */
+    test->exceptions = 0;
     if (test->error) {
         zt_free(test->error);
         test->error = NULL;
-- 
2.43.0


From 868677348794be29348a98d9df8b84b3b6f42c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 072/104] fix: a worker thread that could not be started is
 reported and not joined

---
 src/libzt/zt_threads.c | 38 +++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 820dc27..e59d2af 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -477,27 +477,43 @@ zt_threadpool_get_oput(zt_threadpool *tpool) {
     return data;
 }
 
+/* a thread that does not start leaves its slot empty, so that it is not joined */
+static int
+start_thread(zt_threadpool *tpool, zt_threads_thread **thread, void * (*loop)(void *)) {
+    if ((*thread = zt_threads_alloc_thread()) == NULL) {
+        return -1;
+    }
+
+    if (zt_threads_start(*thread, NULL, loop, (void*)tpool) != 0) {
+        *thread = NULL;
+        return -1;
+    }
+
+    return 0;
+}
+
 int
 zt_threadpool_start(zt_threadpool *tpool) {
     int i;
+    int ret = 0;
 
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            tpool->iput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->iput_threads[i], NULL,
-                             _zt_threadpool_cbs.iput_loop, (void*)tpool);
+            if (start_thread(tpool, &tpool->iput_threads[i], _zt_threadpool_cbs.iput_loop) != 0) {
+                ret = -1;
+            }
         }
     }
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            tpool->oput_threads[i] = zt_threads_alloc_thread();
-            zt_threads_start(tpool->oput_threads[i], NULL,
-                             _zt_threadpool_cbs.oput_loop, (void*)tpool);
+            if (start_thread(tpool, &tpool->oput_threads[i], _zt_threadpool_cbs.oput_loop) != 0) {
+                ret = -1;
+            }
         }
     }
 
-    return 0;
+    return ret;
 }
 
 int
@@ -536,7 +552,9 @@ zt_threadpool_kill(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.iput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            zt_threads_join(tpool->iput_threads[i], NULL);
+            if (tpool->iput_threads[i]) {
+                zt_threads_join(tpool->iput_threads[i], NULL);
+            }
         }
     }
 
@@ -549,7 +567,9 @@ zt_threadpool_kill(zt_threadpool *tpool) {
 
     if (_zt_threadpool_cbs.oput_loop) {
         for (i = 0; i < tpool->min_threads; i++) {
-            zt_threads_join(tpool->oput_threads[i], NULL);
+            if (tpool->oput_threads[i]) {
+                zt_threads_join(tpool->oput_threads[i], NULL);
+            }
         }
     }
 
-- 
2.43.0


From 80525b1ec43ef79bd01742befdc927b8a878ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 073/104] fix: a forked process does not repeat its parent's
 identifiers

---
 src/libzt/zt_uuid.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 00b93dd..541bbed 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -42,16 +42,22 @@ make_ctx_key(void) {
 #  define CTX_STATIC static
 #endif /* not HAVE_PTHREADS */
 
-zt_random_state *
+/* the generator of a thread and the process that seeded it */
+typedef struct {
+    zt_random_state state;
+    pid_t           pid;
+} uuid4_ctx;
+
+uuid4_ctx *
 zt_uuid4_get_ctx(void) {
-    CTX_STATIC zt_random_state * state = NULL;
+    CTX_STATIC uuid4_ctx * state = NULL;
 
     if (!state) {
 #ifdef HAVE_PTHREADS
         (void)pthread_once(&ctx_key_once, make_ctx_key);
         if((state = pthread_getspecific(ctx_key)) == NULL) {
 #endif /* HAVE_PTHREADS */
-            if((state = zt_calloc(zt_random_state, 1)) == NULL) {
+            if((state = zt_calloc(uuid4_ctx, 1)) == NULL) {
                 zt_log_printf(zt_log_err, "Could not allocate memory for uuid4 context");
                 exit(1);
             }
@@ -65,7 +71,7 @@ zt_uuid4_get_ctx(void) {
 
 /* every generator state gets a seed of its own, also within one clock tick */
 static void
-seed_ctx(zt_random_state * state) {
+seed_ctx(uuid4_ctx * ctx) {
     static uint32_t  count = 0;
     uint32_t         seed[4];
     struct timeval   now = { 0, 0 };
@@ -81,20 +87,24 @@ seed_ctx(zt_random_state * state) {
 #ifdef HAVE_PTHREADS
     (void)pthread_mutex_unlock(&seed_mutex);
 #endif /* HAVE_PTHREADS */
-    zt_random_initstate(state, seed, sizeof_array(seed));
+    zt_random_initstate(&ctx->state, seed, sizeof_array(seed));
+    ctx->pid = getpid();
 }
 
 int
 zt_uuid4(zt_uuid_t * uuid) {
     uint32_t                  v;
+    uuid4_ctx               * ctx;
     zt_random_state         * state;
 
     zt_assert(uuid);
 
-    state = zt_uuid4_get_ctx();
+    ctx   = zt_uuid4_get_ctx();
+    state = &ctx->state;
 
-    if (state->initialized == 0) {
-        seed_ctx(state);
+    /* a forked process must not go on with its parent's sequence */
+    if (state->initialized == 0 || ctx->pid != getpid()) {
+        seed_ctx(ctx);
     }
 
     v = zt_random_uint32(state), memcpy(&uuid->data.bytes, &v, 4);
-- 
2.43.0


From 0200537db9daece943d30f36085684e9d458f591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 074/104] fix: an item's result was lost when there was no
 memory for another queue entry

---
 src/libzt/zt_threads.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index e59d2af..44be430 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -15,6 +15,7 @@
 
 static void * _zt_threadpool_iput_loop(void *args);
 static void * _zt_threadpool_oput_loop(void *args);
+static int    _zt_threadpool_queue_oput(zt_threadpool *tpool, zt_threadpool_entry *entry);
 
 struct zt_threads_lock_callbacks  _zt_threads_lock_cbs = {
     NULL, NULL, NULL, NULL
@@ -379,7 +380,10 @@ _zt_threadpool_iput_loop(void *args) {
             input = _zt_threadpool_cbs.iput_worker(init_data, entry->data);
 
             if (input != NULL) {
-                zt_threadpool_insert_oput(tpool, input);
+                /* the entry goes on with the result: there may be no memory for another */
+                entry->data = input;
+                _zt_threadpool_queue_oput(tpool, entry);
+                entry = NULL;
             }
         }
 
@@ -420,16 +424,10 @@ zt_threadpool_insert_iput(zt_threadpool *tpool, void *data) {
     return ret;
 }
 
-int
-zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
-    zt_threadpool_entry *entry;
-    int                  i   = 0;
-    int                  ret = 0;
-
-    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
-        return -1;
-    }
-    entry->data = data;
+static int
+_zt_threadpool_queue_oput(zt_threadpool *tpool, zt_threadpool_entry *entry) {
+    int i   = 0;
+    int ret = 0;
 
     zt_threads_lock(0, tpool->oput_mutex);
     {
@@ -449,6 +447,18 @@ zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
     return ret;
 }
 
+int
+zt_threadpool_insert_oput(zt_threadpool *tpool, void *data) {
+    zt_threadpool_entry *entry;
+
+    if ((entry = calloc(sizeof(zt_threadpool_entry), 1)) == NULL) {
+        return -1;
+    }
+    entry->data = data;
+
+    return _zt_threadpool_queue_oput(tpool, entry);
+}
+
 void *
 zt_threadpool_get_oput(zt_threadpool *tpool) {
     zt_threadpool_entry *entry = NULL;
-- 
2.43.0


From ad4b5f52d4827a068ef926ac90427c91b64bd3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 075/104] fix: a pool's shutdown depended on the loops set for
 other pools

---
 src/libzt/zt_threads.c | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/libzt/zt_threads.c b/src/libzt/zt_threads.c
index 44be430..607231b 100644
--- a/src/libzt/zt_threads.c
+++ b/src/libzt/zt_threads.c
@@ -560,11 +560,9 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     zt_threads_cond_signal(tpool->iput_cond, 1);
     zt_threads_unlock(0, tpool->iput_mutex);
 
-    if (_zt_threadpool_cbs.iput_loop) {
-        for (i = 0; i < tpool->min_threads; i++) {
-            if (tpool->iput_threads[i]) {
-                zt_threads_join(tpool->iput_threads[i], NULL);
-            }
+    for (i = 0; i < tpool->min_threads; i++) {
+        if (tpool->iput_threads[i]) {
+            zt_threads_join(tpool->iput_threads[i], NULL);
         }
     }
 
@@ -575,11 +573,9 @@ zt_threadpool_kill(zt_threadpool *tpool) {
     zt_threads_cond_signal(tpool->oput_cond, 1);
     zt_threads_unlock(0, tpool->oput_mutex);
 
-    if (_zt_threadpool_cbs.oput_loop) {
-        for (i = 0; i < tpool->min_threads; i++) {
-            if (tpool->oput_threads[i]) {
-                zt_threads_join(tpool->oput_threads[i], NULL);
-            }
+    for (i = 0; i < tpool->min_threads; i++) {
+        if (tpool->oput_threads[i]) {
+            zt_threads_join(tpool->oput_threads[i], NULL);
         }
     }
 
@@ -633,14 +629,11 @@ zt_threadpool_init(int min_threads, int max_threads, int pipe_iput, int pipe_opu
     tpool->oput_mutex   = zt_threads_alloc_lock(0);
     tpool->iput_cond    = zt_threads_cond_alloc(0);
     tpool->oput_cond    = zt_threads_cond_alloc(0);
-
-    if (_zt_threadpool_cbs.oput_loop) {
-        tpool->oput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
-    }
+    tpool->oput_threads = calloc(sizeof(zt_threads_thread *), min_threads);
 
     /* without callbacks there are no locks and conditions to be had */
     if (tpool->iput_threads == NULL ||
-        (_zt_threadpool_cbs.oput_loop && tpool->oput_threads == NULL) ||
+        tpool->oput_threads == NULL ||
         (_zt_threads_lock_cbs.alloc && (tpool->iput_mutex == NULL || tpool->oput_mutex == NULL)) ||
         (_zt_threads_cond_cbs.alloc && (tpool->iput_cond == NULL || tpool->oput_cond == NULL))) {
         goto FAIL;
-- 
2.43.0


From e341964917e538f1f2758878f12375a188f491b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 076/104] fix: stop when the exit callbacks cannot be
 registered with the system

zt_atexit() ignored a failing atexit(): neither the callback at hand nor any
later one was then called at exit.
---
 src/libzt/zt_atexit.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_atexit.c b/src/libzt/zt_atexit.c
index dd23ba7..cc03df0 100644
--- a/src/libzt/zt_atexit.c
+++ b/src/libzt/zt_atexit.c
@@ -14,6 +14,8 @@
 # include <libzt/zt_config.h>
 #endif
 
+#include <stdio.h>
+
 #ifdef HAVE_STDLIB_H
 # include <stdlib.h>
 #endif
@@ -75,7 +77,12 @@ zt_atexit(void (*fn)(void * data), void * data) {
 
     CB_LOCK();
     if(zt_stack_empty(&cb_stack)) {
-        atexit(_atexit_call);
+        if(atexit(_atexit_call) != 0) {
+            /* as for any other memory that is not there, stop:
+             * the callback would silently never be called */
+            fprintf(stderr, "could not register the exit callbacks\n");
+            abort();
+        }
     }
 
     zt_stack_push(&cb_stack, &cb->member);
-- 
2.43.0


From 593268e7c7d62fb67fbb8570727cccd64b1f0b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:34 +0000
Subject: [PATCH 077/104] fix: a directory with the program's name was taken
 for the program

---
 src/libzt/zt_progname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_progname.c b/src/libzt/zt_progname.c
index 8caecdd..8c20885 100644
--- a/src/libzt/zt_progname.c
+++ b/src/libzt/zt_progname.c
@@ -159,7 +159,7 @@ zt_progpath(char *prog) {
                                      prog, 0, -1, NULL);
 
                 errno = 0;
-                if((stat(tpath, &sbuf) == 0)) {
+                if((stat(tpath, &sbuf) == 0) && !S_ISDIR(sbuf.st_mode)) {
                     zt_cstr_dirname(_progpath, PATH_MAX, tpath);
                     zt_free(tpath);
                     return _progpath;
-- 
2.43.0


From bcd02a163aef8614f553889c1285106ea228047d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 078/104] fix: dump a byte of value 255 instead of taking it
 for the end of the text

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index ee1a9d3..95ab754 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -712,7 +712,7 @@ static int _read_str(void * ctx) {
         return EOF;
     }
 
-    c = *(state->c + state->offt);
+    c = (unsigned char)*(state->c + state->offt);
     state->offt += 1;
     return c;
 }
-- 
2.43.0


From 30d4b5d30816cccec134bd2d8b675e9e208c262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 079/104] fix: show the last line of a hex dump when it is
 fifteen bytes long

---
 src/libzt/zt_cstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 95ab754..4744c08 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -789,7 +789,7 @@ zt_hexdump(int _getchar(void *), void * data, zt_hexdump_output output, void * o
         bytes++;
     }
 
-    if ((addr % 16 != 15) && (addr % 16 != 0)) {
+    if (addr % 16 != 0) {
         if (output(odata, _addr, _hex, _txt) == -1 ) {
             return -1;
         }
-- 
2.43.0


From 32e58bf84d1bbf6c249b4aa416cfe3dab8278164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 080/104] fix: pad left-justified strings to their width

---
 src/libzt/zt_format.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 2c2e929..6307527 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -351,6 +351,10 @@ zt_fmt_puts(const char *str, size_t len,
 
     EMIT_STR(str, len, cl, tlen);
 
+    if (flags['-']) {
+        pad(width - (ssize_t)len, ' ', tlen);
+    }
+
     return tlen;
 }
 
-- 
2.43.0


From 3247a2bc20ce3aaf3b26e6005c6afa8f6c8e0d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 081/104] fix: put the sign that the '+' flag asks for

---
 src/libzt/zt_format.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 6307527..3a67b8a 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -378,6 +378,8 @@ zt_fmt_putd(const char *str, size_t len,
          *str == '+')) {
         sign = *str++;
         len--;
+    } else if (flags['+']) {
+        sign = '+';
     } else if (flags[' ']) {
         sign = ' ';
     } else {
-- 
2.43.0


From 827979bcd82abfe7aa32c4d4fd11e3d6df1dd37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 082/104] fix: put the sign of a right-justified number after
 the blanks

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 3a67b8a..cb21e97 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -415,10 +415,10 @@ zt_fmt_putd(const char *str, size_t len,
         }
         pad(width - n, '0', tlen);
     } else {
+        pad(width - n, ' ', tlen);
         if (sign) {
             tlen += put(sign, cl);
         }
-        pad(width - n, ' ', tlen);
     }
 
     pad(precision - len, '0', tlen);
-- 
2.43.0


From bc8728471efa74657080231ba8f028c6a453b0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 083/104] fix: format zero with precision zero as nothing

---
 src/libzt/zt_format.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index cb21e97..e381845 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -397,6 +397,7 @@ zt_fmt_putd(const char *str, size_t len,
                len == 1 &&
                str[0] == '0') {
         n = 0;
+        len = 0;
     } else {
         n = len;
     }
-- 
2.43.0


From b3cf206c45b1e414b80e2a310c2dc572c5b0e8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 084/104] fix: return the number of characters written, not a
 sum of the characters

---
 src/libzt/zt_format.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index e381845..866e217 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -455,7 +455,7 @@ zt_fmt_outc(int c, void *cl)
 {
     FILE *f = cl;
 
-    return putc(c, f);
+    return putc(c, f) == EOF ? 0 : 1;
 }
 
 static size_t
@@ -654,7 +654,7 @@ zt_fmt_insert(int c, void *cl)
     /* } */
 
     *p->bp++ = c;
-    return c;
+    return 1;
 }
 
 static int
@@ -669,5 +669,5 @@ zt_fmt_append(int c, void *cl)
     }
 
     *p->bp++ = c;
-    return c;
+    return 1;
 }
-- 
2.43.0


From b8f865519e899b603234a286027191229b256447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 085/104] fix: format INT_MAX and INT_MIN

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 866e217..10f35ef 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -491,7 +491,7 @@ cvt_d(int code UNUSED, void * value,
     char         buf[43];
     char       * p = buf + sizeof(buf);
 
-    if (val == INT_MAX) {
+    if (val == INT_MIN) {
         m = INT_MAX + 1U; /* -1 */
     } else if (val < 0) {
         m = -val;
-- 
2.43.0


From 7216f142d8a9fa54fd6961c81f43ce7cae98d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 086/104] fix: pad a floating point number to its width, not to
 its precision

---
 src/libzt/zt_format.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 10f35ef..cbdd81b 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -535,8 +535,9 @@ cvt_f(int code, void * value,
 
     sprintf(buf, fmt, *(double *)value);
 
+    /* the precision is in the digits already */
     return zt_fmt_putd(buf, strlen(buf), put, cl,
-                       flags, width, precision);
+                       flags, width, INT_MIN);
 }
 
 static size_t
-- 
2.43.0


From 89aa457a3110bd5836fea02de8b9fc2ea6b88956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 087/104] fix: make room for the sign of the longest floating
 point number

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index cbdd81b..6f001b9 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -517,7 +517,7 @@ cvt_f(int code, void * value,
       unsigned char flags[],
       ssize_t width, ssize_t precision)
 {
-    char        buf[DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
+    char        buf[1 + DBL_MAX_10_EXP + 1 + 1 + 99 + 1];
     char        fmt[] = "%.dd?";
 
     if (precision < 0) {
-- 
2.43.0


From edb6107d717582b9379d6f69c6fdde8a681e33e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 088/104] fix: stop a formatted text that does not fit its
 buffer in every build

---
 src/libzt/zt_format.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_format.c b/src/libzt/zt_format.c
index 6f001b9..7a623bf 100644
--- a/src/libzt/zt_format.c
+++ b/src/libzt/zt_format.c
@@ -649,7 +649,7 @@ zt_fmt_insert(int c, void *cl)
 {
     struct zt_fmt_obuf * p = cl;
 
-    zt_assert(p->bp < p->buf + p->size);
+    zt_assert_always(p->bp < p->buf + p->size);
     /* if (p->bp >= p->buf + p->size) { */
         /* TRY_THROW(zt_exception.format.overflow); */
     /* } */
-- 
2.43.0


From 2dda9a6c04951d3d5f3d4da973c99087c221ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 089/104] fix: leave the data being hashed as it was

---
 src/libzt/zt_sha1.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 1af5ed8..87849ba 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -56,11 +56,11 @@ _sha1_transform(uint32_t state[5], uint8_t buffer[64])
     uint32_t       c;
     uint32_t       d;
     uint32_t       e;
-    CHAR64LONG16 * block;
+    CHAR64LONG16   copy;
+    CHAR64LONG16 * block = &copy;
 
-    /* uint32_t      block[80]; */
-
-    block = (CHAR64LONG16 *)buffer;
+    /* the rounds change the block: they work on a copy of the caller's data */
+    memcpy(&copy, buffer, sizeof(copy));
 
     a = state[0];
     b = state[1];
-- 
2.43.0


From 7b284271f38f5b5f6ff6162cdd03d7e4713003a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:43 +0000
Subject: [PATCH 090/104] fix: terminate the text of a digest

---
 src/libzt/zt_sha1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 87849ba..7a138ab 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -178,7 +178,8 @@ zt_sha1_data(void *data, size_t len, uint8_t digest[20])
 char*
 zt_sha1_tostr(uint8_t digest[20], char sha1[41])
 {
-    zt_binary_to_hex(digest, 20, sha1, 41);
+    zt_binary_to_hex(digest, 20, sha1, 40);
+    sha1[40] = '\0';
     return sha1;
 }
 
-- 
2.43.0


From a2dda5b59d3c1108b75668aa255953ef1cd58b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 091/104] fix: look up the value of an option that has no long
 name

---
 src/libzt/zt_opts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 5478e19..cdb07d4 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -110,7 +110,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
         /* there was no '=' embedded
          * try matching the long opt name
          */
-        if (strcmp(lopt, pp) == 0) {
+        if (lopt != ZT_OPT_NLO && strcmp(lopt, pp) == 0) {
             result = argv[argn + 1]; /* default to the next option */
             *args_consumed = 1;
         } else {
-- 
2.43.0


From e63980e90ccf43e533607a27b4394417555d5d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 092/104] fix: give an option that stands after flags its own
 value

---
 src/libzt/zt_opts.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index cdb07d4..b5c5bca 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -114,8 +114,9 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
             result = argv[argn + 1]; /* default to the next option */
             *args_consumed = 1;
         } else {
-            /* short opt */
-            pp++;
+            /* short opt, possibly after others that take no value */
+            while (*pp && *pp != def[defn].sopt) { pp++; }
+            if (*pp) { pp++; }
             if(*pp) {
                 result = pp;
             } else {
-- 
2.43.0


From ccadd86a41603e8db0aa2b6351a2fc40286094bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 093/104] fix: do not process the value inside an argument as
 options

---
 src/libzt/zt_opts.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index b5c5bca..191634e 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -85,6 +85,13 @@ zt_opt_error_default(int code, char * fmt, ...) {
     return ret;
 }
 
+/* the value that zt_opt_get_value last found inside an argument */
+#if defined(_MSC_VER)
+static __declspec(thread) char * inside_arg;
+#else
+static __thread char * inside_arg;
+#endif
+
 char *
 zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args_consumed, zt_opt_error error) {
     char * p      = argv[argn];
@@ -101,6 +108,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
     do {
         if (*pp == '=') {
             result = ++pp;
+            inside_arg = pp;
             break;
         }
     } while (*pp++);
@@ -119,6 +127,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
             if (*pp) { pp++; }
             if(*pp) {
                 result = pp;
+                inside_arg = pp;
             } else {
                 result = argv[argn + 1];
                 *args_consumed = 1;
@@ -468,7 +477,8 @@ zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_valida
         if (argv[i][0] == '-') {
             unsigned int x;
             size_t       len          = 0;
-            char       * p            = &argv[i][1];
+            char       * arg          = argv[i];
+            char       * p            = &arg[1];
             int          combined_opt = 0;
             int          found        = 0;
             int          long_opt     = 0;
@@ -495,6 +505,7 @@ AGAIN:
                     int consumed = 0;
 
                     found = 1;
+                    inside_arg = NULL;
                     if ((consumed = args[x].cb(i, x, argc, argv, args, error)) < 0) {
                         /* error */
                         return consumed;
@@ -504,6 +515,11 @@ AGAIN:
                         i += consumed;
                     }
 
+                    if (inside_arg > arg && inside_arg <= arg + strlen(arg)) {
+                        /* the rest of this argument is the option's value */
+                        break;
+                    }
+
                     if(!consumed && !long_opt && *(++p)) {
                         /* if we did not consume extra args AND
                          * we are a short option AND
-- 
2.43.0


From 5d476726001e00343bca99457413567bbd0a9cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 094/104] fix: report an unknown option that stands after flags

---
 src/libzt/zt_opts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 191634e..e02aff7 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -497,6 +497,7 @@ zt_opt_process_args(int * argc, char ** argv, zt_opt_def_t * args, zt_opt_valida
 
 
 AGAIN:
+            found = 0;
             for (x = 0; args[x].cb; x++) {
                 if ((len == 0 && args[x].sopt != ZT_OPT_NSO && *p == args[x].sopt) || /* short opt */
                     /* long opt */
-- 
2.43.0


From 67c730e58c370ae2cedd48c01cefd0f768bf6d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 095/104] fix: stop at a missing option value when the error
 function returns

---
 src/libzt/zt_opts.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index e02aff7..b44346f 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -136,6 +136,7 @@ zt_opt_get_value(int argn, int defn, char ** argv, zt_opt_def_t * def, int *args
     }
 
     if (!result) {
+        *args_consumed = 0;
         error(EINVAL, "while processing arg '%s'", argv[argn]);
     }
 
@@ -155,6 +156,11 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     int      args_consumed = 0;
     char   * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        /* reported already */
+        return args_consumed;
+    }
+
     errno  = 0;
     result = strtoimax(arg, &end, 0);
 
@@ -184,6 +190,11 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        /* reported already */
+        return args_consumed;
+    }
+
     errno  = 0;
     result = strtol(arg, &end, 0);
 
@@ -211,6 +222,11 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
     int    args_consumed = 0;
     char * arg = zt_opt_get_value(argn, defn, argv, def, &args_consumed, error);
 
+    if (!arg) {
+        /* reported already */
+        return args_consumed;
+    }
+
     len = strlen(arg);
 
     if (len == 1) {
-- 
2.43.0


From 4efb1477106f99ed17d8ceabf81634302ecebe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 096/104] fix: leave the variable of an option alone when its
 number is invalid

---
 src/libzt/zt_opts.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index b44346f..1effcac 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -167,11 +167,13 @@ zt_opt_intmax(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def,
     if (errno) {
         /* check errno */
         error(errno, "invalid number '%s'", arg);
+        return args_consumed;
     }
 
     if (end && *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
+        return args_consumed;
     }
 
     if (def[defn].cb_data) {
@@ -201,11 +203,13 @@ zt_opt_long(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def, zt
     if (errno) {
         /* check errno */
         error(errno, "invalid number '%s'", arg);
+        return args_consumed;
     }
 
     if (end && *end) {
         /* invalid character */
         error(EINVAL, "'%s' is not a number", arg);
+        return args_consumed;
     }
 
     if (def[defn].cb_data) {
-- 
2.43.0


From 8351e069b57409f26a6f75f6ea8fb07c3dd30971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:08 +0000
Subject: [PATCH 097/104] fix: consume the value of a boolean option also when
 it is invalid

---
 src/libzt/zt_opts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index 1effcac..de3a576 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -249,7 +249,7 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
                 break;
             default:
                 error(EINVAL, "'%s' is not a boolean expression", argv[argn]);
-                return 0;
+                return args_consumed;
         }
     } else {
         if (strcasecmp(arg, "true") == 0 ||
@@ -260,7 +260,7 @@ zt_opt_bool_int(int argn, int defn, int * argc, char ** argv, zt_opt_def_t * def
             result = 0;
         } else {
             error(EINVAL, "'%s' is not a boolean expression", argv[argn]);
-            return 0;
+            return args_consumed;
         }
     }
 
-- 
2.43.0


From e14a4f21a9940621d6d676c27e3afa8480bb415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:09 +0000
Subject: [PATCH 098/104] fix: show help texts with words that are longer than
 a line

---
 src/libzt/zt_opts.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_opts.c b/src/libzt/zt_opts.c
index de3a576..648bd35 100644
--- a/src/libzt/zt_opts.c
+++ b/src/libzt/zt_opts.c
@@ -376,9 +376,14 @@ _zt_opt_help_stdout_printer(zt_opt_def_t * def) {
                     width = sublen;
                 } else {
                     // try to break between words
-                    while(def->help[offt+width] != ' ') {
+                    while(width > 0 && def->help[offt+width] != ' ') {
                         width--;
                     }
+
+                    if (width == 0) {
+                        // a single word that is longer than the line
+                        width = strcspn(&def->help[offt], " ");
+                    }
                 }
 
                 printf(BLANK "%.*s" NL, INDENT_TO(BASE_INDENT, 5, depth), (int)width, &def->help[offt]);
-- 
2.43.0


From 020dfc0261b3860b713043232986c1f06b5b416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:40 +0000
Subject: [PATCH 099/104] fix: zt_sha1_update: pieces of nearly 4 GB or more
 overran the block buffer or were cut short

---
 src/libzt/zt_sha1.c | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/libzt/zt_sha1.c b/src/libzt/zt_sha1.c
index 7a138ab..75578a0 100644
--- a/src/libzt/zt_sha1.c
+++ b/src/libzt/zt_sha1.c
@@ -113,28 +113,24 @@ zt_sha1_init(zt_sha1_ctx *ctx)
 void
 zt_sha1_update(zt_sha1_ctx *ctx, uint8_t *data, size_t len)
 {
-    uint32_t      i;
-    uint32_t      j;
-    uint32_t      llen;
-
-    /* FIXME: 64bit (or better unbounded) sha1_update */
-    zt_assert(len <= UINT_MAX-1);
-    llen = (uint32_t)len;
+    size_t        i;
+    size_t        j;
+    uint32_t      bits = (uint32_t)len << 3;
 
     j = (ctx->count[0] >> 3) & 63;
-    if ((ctx->count[0] += llen << 3) < (llen << 3)) {
+    if ((ctx->count[0] += bits) < bits) {
         ctx->count[1]++;
     }
-    ctx->count[1] += (llen >> 29);
-    if ((j + llen) > 63) {
+    ctx->count[1] += (uint32_t)(len >> 29);
+    if ((j + len) > 63) {
         memcpy(&ctx->buffer[j], data, (i = 64 - j));
         _sha1_transform(ctx->state, ctx->buffer);
-        for (; i + 63 < llen; i += 64) {
+        for (; i + 63 < len; i += 64) {
             _sha1_transform(ctx->state, &data[i]);
         }
         j = 0;
     } else { i = 0; }
-    memcpy(&ctx->buffer[j], &data[i], llen - i);
+    memcpy(&ctx->buffer[j], &data[i], len - i);
 }
 
 void
-- 
2.43.0


From 4422e6edfaa93952e7e75129c50616eac91e396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:30 +0000
Subject: [PATCH 100/104] fix: zt_uuid4: forked processes could hang on the
 seed lock or go on with an ancestor's sequence

---
 src/libzt/zt_uuid.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_uuid.c b/src/libzt/zt_uuid.c
index 541bbed..9b0d160 100644
--- a/src/libzt/zt_uuid.c
+++ b/src/libzt/zt_uuid.c
@@ -32,20 +32,42 @@ static int base62_decode_int64(const char * in, size_t ilen, uint64_t * out);
 static pthread_key_t   ctx_key;
 static pthread_once_t  ctx_key_once = PTHREAD_ONCE_INIT;
 static pthread_mutex_t seed_mutex   = PTHREAD_MUTEX_INITIALIZER;
+static unsigned int    generation   = 0;
+
+/* a forked process gets its copy of the mutex unlocked and knows its copies of
+ * the generators as inherited, also if its process id was in use before */
+static void
+fork_prepare(void) {
+    (void)pthread_mutex_lock(&seed_mutex);
+}
+
+static void
+fork_parent(void) {
+    (void)pthread_mutex_unlock(&seed_mutex);
+}
+
+static void
+fork_child(void) {
+    generation++;
+    (void)pthread_mutex_unlock(&seed_mutex);
+}
 
 static void
 make_ctx_key(void) {
     (void)pthread_key_create(&ctx_key, free);
+    (void)pthread_atfork(fork_prepare, fork_parent, fork_child);
 }
 #  define CTX_STATIC
 #else /* HAVE_PTHREADS */
 #  define CTX_STATIC static
+static unsigned int    generation   = 0;
 #endif /* not HAVE_PTHREADS */
 
 /* the generator of a thread and the process that seeded it */
 typedef struct {
     zt_random_state state;
     pid_t           pid;
+    unsigned int    generation;
 } uuid4_ctx;
 
 uuid4_ctx *
@@ -88,7 +110,8 @@ seed_ctx(uuid4_ctx * ctx) {
     (void)pthread_mutex_unlock(&seed_mutex);
 #endif /* HAVE_PTHREADS */
     zt_random_initstate(&ctx->state, seed, sizeof_array(seed));
-    ctx->pid = getpid();
+    ctx->pid        = getpid();
+    ctx->generation = generation;
 }
 
 int
@@ -103,7 +126,7 @@ zt_uuid4(zt_uuid_t * uuid) {
     state = &ctx->state;
 
     /* a forked process must not go on with its parent's sequence */
-    if (state->initialized == 0 || ctx->pid != getpid()) {
+    if (state->initialized == 0 || ctx->pid != getpid() || ctx->generation != generation) {
         seed_ctx(ctx);
     }
 
-- 
2.43.0


From d4e6f758fc41f8d469ab351b2598fc59fa4d6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 101/104] fix: zt_malloc, zt_mallocs and zt_realloc: a count
 times a size that wraps around got too little memory

The macros multiplied without a check, so an impossible request was turned
into a small one that succeeded.  Such a request is now passed on as one
that can not be granted, and fails like any other that is too large.
---
 src/libzt/zt_malloc.c | 10 ++++++++++
 src/zt.h              |  8 +++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/libzt/zt_malloc.c b/src/libzt/zt_malloc.c
index 1defcc5..32bde8a 100644
--- a/src/libzt/zt_malloc.c
+++ b/src/libzt/zt_malloc.c
@@ -15,6 +15,16 @@
 #include "zt_assert.h"
 #include "zt_log.h"
 
+size_t
+zt_alloc_size(size_t num, size_t size)
+{
+    if (size != 0 && num > (size_t)-1 / size) {
+        return (size_t)-1;
+    }
+
+    return num * size;
+}
+
 void_p
 zt_calloc_p(size_t num, size_t size)
 {
diff --git a/src/zt.h b/src/zt.h
index 2fb966c..d7f4178 100644
--- a/src/zt.h
+++ b/src/zt.h
@@ -31,10 +31,10 @@
 
 extern char *memoryError;
 #define zt_callocs(size, num)     (zt_calloc_p ((num), (size)))
-#define zt_mallocs(size, num)     (zt_malloc_p ((num) * (size)))
+#define zt_mallocs(size, num)     (zt_malloc_p (zt_alloc_size ((num), (size))))
 #define zt_calloc(type, num)	((type *) zt_calloc_p ((num), sizeof(type)))
-#define zt_malloc(type, num)	((type *) zt_malloc_p ((num) * sizeof(type)))
-#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), (num) * sizeof(type)))
+#define zt_malloc(type, num)	((type *) zt_malloc_p (zt_alloc_size ((num), sizeof(type))))
+#define zt_realloc(type, p, num)	((type *) zt_realloc_p (((void_p)p), zt_alloc_size ((num), sizeof(type))))
 #define zt_free(stale)   	  	       	  	   	 \
 do {							 \
    if (stale) { free ((void_p) stale);  stale = 0; }	 \
@@ -124,6 +124,8 @@ typedef char* void_p;
 /* These entry points to the API are guaranteed to be functions */
 #include <stdlib.h>
 
+/* num * size, or a size that is never granted if that cannot be represented */
+extern size_t zt_alloc_size	(size_t num, size_t size);
 extern void * zt_calloc_p	(size_t num, size_t size);
 extern void * zt_malloc_p	(size_t num);
 extern void * zt_realloc_p (void * p, size_t num);
-- 
2.43.0


From d854b505af17f1fa40260d20716bacb4f1351df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:43 +0000
Subject: [PATCH 102/104] fix: zt_array_resize: the memory of an array too
 large to exist wrapped around to too little

The added elements were then cleared far behind the allocation.  Replacing
the data with a copy computed its size the same way.
---
 src/libzt/zt_array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libzt/zt_array.c b/src/libzt/zt_array.c
index 7432a09..1d5d108 100644
--- a/src/libzt/zt_array.c
+++ b/src/libzt/zt_array.c
@@ -54,7 +54,7 @@ zt_array_set_data(zt_array_t array, char *data,
 
     if (copy) {
         arrayrep_init(array, len, size,
-                      zt_calloc(char, len * size));
+                      (char *)zt_calloc_p(len, size));
         memcpy(array->data, data, len * size);
     } else {
         arrayrep_init(array, len, size, data);
@@ -90,7 +90,7 @@ zt_array_resize(zt_array_t array, size_t len)
     zt_assert(len > 0);
 
     if (len > 0) {
-        array->data = zt_realloc(char, array->data, len * array->size);
+        array->data = (char *)zt_realloc_p(array->data, zt_alloc_size(len, array->size));
         /* lear the added space */
         if(len > array->length) {
             size_t   rlen = len - array->length;
-- 
2.43.0


From 713fa9b1fb6cf1a91159ed0a7162d8fde087f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:59 +0000
Subject: [PATCH 103/104] fix: zt_cstr_dup: the length of very many copies
 wrapped around to a short string

The copies were then written behind its end.
---
 src/libzt/zt_cstr.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_cstr.c b/src/libzt/zt_cstr.c
index 4744c08..7576118 100644
--- a/src/libzt/zt_cstr.c
+++ b/src/libzt/zt_cstr.c
@@ -118,6 +118,7 @@ zt_cstr_sub(const char *s, ssize_t i, ssize_t j) {
 char *
 zt_cstr_dup(const char *s, ssize_t i, ssize_t j, ssize_t n) {
     ssize_t   k;
+    size_t    len;
     char    * new;
     char    * p;
 
@@ -129,7 +130,8 @@ zt_cstr_dup(const char *s, ssize_t i, ssize_t j, ssize_t n) {
 
     CONVERT(s, i, j);
 
-    p = new = zt_malloc(char, (n * IDXLEN(i, j)) + 1);
+    len = zt_alloc_size((size_t)n, IDXLEN(i, j));
+    p = new = zt_malloc(char, len < (size_t)-1 ? len + 1 : len);
 
     if (IDXLEN(i, j) > 0) {
         while (n-- > 0) {
-- 
2.43.0


From 4338a240758ee33c225b15a502760090ff60bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:08 +0000
Subject: [PATCH 104/104] fix: zt_mem_pool_init, zt_mem_heap_init: a size that
 wraps around got too little memory

The page of a pool with large elements, and the memory of a heap, could be
computed smaller than what was laid out in them.  They are now refused as
when there is no memory.
---
 src/libzt/zt_mem.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libzt/zt_mem.c b/src/libzt/zt_mem.c
index b75e5d3..dc4e7f7 100644
--- a/src/libzt/zt_mem.c
+++ b/src/libzt/zt_mem.c
@@ -109,6 +109,10 @@ zt_mem_heap_init(char *name, size_t size)
 {
     zt_mem_heap * heap;
 
+    if (size > ~(size_t)0 - sizeof(zt_mem_heap)) {
+        return NULL;
+    }
+
     if ((heap = GLOBAL_zmt.alloc(sizeof(zt_mem_heap) + size)) == NULL) {
         return NULL;
     }
@@ -177,6 +181,13 @@ x_calculate_page_data(ssize_t elts, size_t size, size_t *page_size, size_t *epp,
             *npages = 1;
         }
     } else {
+        if (elts < 0 ||
+            size > ~(size_t)0 - sizeof(zt_mem_elt) ||
+            (size_t)elts > (~(size_t)0 - sizeof(zt_mem_page)) / (sizeof(zt_mem_elt) + size)) {
+            /* no page can be that large */
+            return -1;
+        }
+
         *epp = elts;
         *page_size = (elts * (sizeof(zt_mem_elt) + size)) + sizeof(zt_mem_page);
         *npages = 1;
@@ -198,7 +209,9 @@ zt_mem_pool_init(char *name, ssize_t elts,
     size_t        pcache;
     int           need_atexit;
 
-    x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages);
+    if (x_calculate_page_data(elts ? elts : 1, size, &npage_size, &epp, &npages) < 0) {
+        return NULL;
+    }
 
     POOLS_LOCK();
     need_atexit = !mem_atexit;
-- 
2.43.0

