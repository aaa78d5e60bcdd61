From c81969be540ccea72be370bb3cd3e6788135f7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 01/60] fix: u_pq_create: refuse a capacity whose slot count
 wraps to zero

---
 srcs/toolbox/pqueue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/srcs/toolbox/pqueue.c b/srcs/toolbox/pqueue.c
index 0c95546..4f7a76e 100644
--- a/srcs/toolbox/pqueue.c
+++ b/srcs/toolbox/pqueue.c
@@ -92,6 +92,7 @@ int u_pq_create (size_t nitems, u_pq_t **ppq)
 
     dbg_return_if (ppq == NULL, ~0);
     dbg_return_if (nitems < 2, ~0); /* Expect at least 2 elements. */
+    dbg_return_if (nitems + 1 == 0, ~0);    /* Slot 0 is unused: don't wrap. */
 
     /* Make room for both the queue head and items' array. */
     dbg_err_sif ((pq = u_zalloc(sizeof *pq)) == NULL);
-- 
2.43.0


From a107af372f6b4d0c232b37d1d891c4cd25fc8fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 02/60] fix: u_rb_fast_read: check the method it calls, not the
 write one

---
 srcs/toolbox/rb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 7b42a8f..281ce87 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -278,7 +278,7 @@ ssize_t u_rb_read (u_rb_t *rb, void *b, size_t b_sz)
 void *u_rb_fast_read (u_rb_t *rb, size_t *pb_sz)
 {
     dbg_return_if (rb == NULL, NULL);
-    dbg_return_if (rb->cb_write == NULL, NULL);
+    dbg_return_if (rb->cb_fast_read == NULL, NULL);
 
     return rb->cb_fast_read(rb, pb_sz);
 }
-- 
2.43.0


From 8dae8a976312f08d17aea8910078e52f140b9762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 03/60] fix: read_wrapped: fragment the read iff it crosses the
 end of the buffer

---
 srcs/toolbox/rb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index 281ce87..b8909a4 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -496,7 +496,9 @@ static ssize_t read_wrapped (u_rb_t *rb, void *b, size_t b_sz)
     /* if there is nothing ready to be read go out immediately */
     nop_goto_if (!(to_be_read = U_MIN(u_rb_ready(rb), b_sz)), end);
 
-    if (!is_wrapped(rb) || (rspace = (rb->sz - rb->rd_off)) <= to_be_read)
+    /* No need to reassemble tail and head if what is going to be read does 
+     * not cross the right end of the buffer. */
+    if ((rspace = (rb->sz - rb->rd_off)) >= to_be_read)
     {
         memcpy(b, read_addr(rb), to_be_read);
         read_incr_wrapped(rb, to_be_read);
-- 
2.43.0


From 6dc878ab011f47cd1d499b4fbe059af2cf1ca29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:53 +0000
Subject: [PATCH 04/60] fix: u_rb_create: refuse sizes whose double does not
 fit

---
 srcs/toolbox/rb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index b8909a4..daef55c 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -629,6 +629,8 @@ static int create_malloc (size_t sz, int opts, u_rb_t **prb)
     u_rb_t *rb = NULL;
 
     dbg_return_if (sz == 0, -1);
+    dbg_return_if ((opts & U_RB_OPT_USE_CONTIGUOUS_MEM) && 
+            (sz << 1) >> 1 != sz, -1);
     dbg_return_if (prb == NULL, -1);
 
     dbg_err_sif ((rb = u_zalloc(sizeof *rb)) == NULL);
-- 
2.43.0


From 1e6fd83a60233f026ea598b0c589c690dd198728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:27 +0000
Subject: [PATCH 05/60] fix: create_mmap: release everything on failure, check
 result argument and size

---
 srcs/toolbox/rb.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/rb.c b/srcs/toolbox/rb.c
index daef55c..cdc3e71 100644
--- a/srcs/toolbox/rb.c
+++ b/srcs/toolbox/rb.c
@@ -543,19 +543,22 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
     u_rb_t *rb = NULL;
     char path[] = "/tmp/rb-XXXXXX";
 
+    dbg_return_if (prb == NULL, -1);
+
     dbg_err_sif ((rb = u_zalloc(sizeof(u_rb_t))) == NULL);
+    rb->cb_free = free_mmap;
     dbg_err_sif ((fd = mkstemp(path)) == -1);
     dbg_err_sif (u_remove(path));
  
     /* round the supplied size to a page multiple (mmap is quite picky
      * about page boundary alignment) */
     rb->sz = round_sz(hint_sz);
+    dbg_err_if (rb->sz < hint_sz || (rb->sz << 1) >> 1 != rb->sz);
     rb->wr_off = rb->rd_off = rb->ready = 0;
     rb->opts = opts;
 
     /* Set mmap methods.  Always use the contiguous methods, silently 
      * ignoring any contraddictory user request. */
-    rb->cb_free = free_mmap;
     rb->cb_read = read_contiguous;
     rb->cb_fast_read = fast_read;
     rb->cb_write = write_contiguous;
@@ -569,7 +572,9 @@ static int create_mmap (size_t hint_sz, int opts, u_rb_t **prb)
      * pretending to MAP_FIXED */
     rb->base = mmap(NULL, rb->sz << 1, PROT_NONE, 
             MAP_ANON | MAP_PRIVATE, -1, 0);
-    dbg_err_sif (rb->base == MAP_FAILED);
+    if (rb->base == MAP_FAILED)
+        rb->base = NULL;
+    dbg_err_sif (rb->base == NULL);
 
     /* POSIX: "The mapping established by mmap() shall replace any previous 
      * mappings for those whole pages containing any part of the address space 
-- 
2.43.0


From 83a3adca3005ffcbe8120af2f74710368e839773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 06/60] fix: u_string: keep the terminator across a failed or
 growing append, bound the growth shift, report vsnprintf errors

---
 srcs/toolbox/str.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/str.c b/srcs/toolbox/str.c
index 7642944..955bcad 100644
--- a/srcs/toolbox/str.c
+++ b/srcs/toolbox/str.c
@@ -9,7 +9,7 @@
 #include <toolbox/carpal.h>
 #include <toolbox/memory.h>
 
-enum { BLOCK_SIZE = 64 };
+enum { BLOCK_SIZE = 64, MAX_SHIFT = 24 };
 
 /* null strings will be bound to the null char* */
 static char null_cstr[1] = { 0 };
@@ -322,6 +322,7 @@ int u_string_reserve (u_string_t *s, size_t size)
 
     dbg_return_if (s == NULL, ~0);
     nop_return_if (size <= s->data_sz, 0);
+    dbg_return_if (size + 1 == 0, ~0);
    
     /* realloc requested size plus 1 char to store the terminating '\0' */
     nbuf = u_realloc(((s->data == null) ? NULL : s->data), size + 1);
@@ -329,6 +330,7 @@ int u_string_reserve (u_string_t *s, size_t size)
 
     /* zero terminate it */
     nbuf[size] = '\0';
+    nbuf[s->data_len] = '\0';
 
     s->data = (void *) nbuf;
     s->data_sz = size;
@@ -390,7 +392,12 @@ int u_string_append (u_string_t *s, const char *buf, size_t len)
         min = s->data_len + len + 1; /* min required buffer length */
         nsz = s->data_sz;
         while (nsz <= min)
-            nsz += (BLOCK_SIZE << s->shift_cnt++);
+        {
+            nsz += (size_t) BLOCK_SIZE << s->shift_cnt;
+
+            if (s->shift_cnt < MAX_SHIFT)
+                s->shift_cnt++;
+        }
 
         dbg_err_if (u_string_reserve(s, nsz));
     }
@@ -460,6 +467,7 @@ int u_string_aprintf (u_string_t *s, const char *fmt, ...)
 static int u_string_do_vprintf (u_string_t *s, int clear, const char *fmt, 
         va_list ap)
 {
+    int rc;
     size_t sz, avail;
     va_list apcpy;
 
@@ -479,16 +487,18 @@ again:
      * if the return value is greater than or equal to the size argument, 
      * the string was too short and some of the printed characters were 
      * discarded; in that case realloc a bigger buffer and retry */
-    sz = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
+    rc = vsnprintf(s->data + s->data_len, avail, fmt, apcpy);
 
     va_end(apcpy);
 
-    if (sz >= avail)
+    if (rc < 0 || (sz = (size_t) rc) >= avail)
     {
-        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
-
         /* trunc the buffer again since vsnprintf could have overwritten '\0' */
-        s->data[s->data_len] = '\0';
+        if (avail)
+            s->data[s->data_len] = '\0';
+
+        dbg_err_if (rc < 0);
+        dbg_err_if (u_string_reserve(s, s->data_sz + s->data_len + 2 * sz + 1));
 
         goto again;
     }
-- 
2.43.0


From afd6322fd910ed995ff3847d15fe5f92067d0145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:47 +0000
Subject: [PATCH 07/60] fix: u_buf: load empty files, terminate loaded data,
 make printf terminate and restore the terminator on error

---
 srcs/toolbox/buf.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/srcs/toolbox/buf.c b/srcs/toolbox/buf.c
index 38819ed..48107f9 100644
--- a/srcs/toolbox/buf.c
+++ b/srcs/toolbox/buf.c
@@ -45,6 +45,7 @@ int u_buf_reserve (u_buf_t *ubuf, size_t size)
     dbg_err_if (ubuf == NULL);
 
     nop_return_if (size <= ubuf->size, 0);  /* nothing to do */
+    dbg_err_if (size + 1 == 0);
    
     /* size plus 1 char to store a '\0' */
     dbg_err_sif ((nbuf = u_realloc(ubuf->data, size + 1)) == NULL);
@@ -127,8 +128,12 @@ int u_buf_load (u_buf_t *ubuf, const char *filename)
     dbg_err_sifm ((fp = fopen(filename, "r")) == NULL, "%s", filename);
 
     /* fill the buffer with the whole file content */
-    dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
-    ubuf->len = st.st_size;
+    if (st.st_size)
+    {
+        dbg_err_if (fread(ubuf->data, st.st_size, 1, fp) != 1);
+        ubuf->len = st.st_size;
+        ubuf->data[ubuf->len] = '\0';
+    }
 
     (void) fclose(fp);
 
@@ -348,6 +353,7 @@ int u_buf_free (u_buf_t *ubuf)
  */
 int u_buf_printf (u_buf_t *ubuf, const char *fmt, ...)
 {
+    int rc;
     va_list ap;
     size_t sz, avail;
 
@@ -360,15 +366,18 @@ again:
     avail = ubuf->size - ubuf->len; /* avail may be zero */
 
     /* write to the internal buffer of ubuf */
-    dbg_err_if ((sz = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap)) <= 0);
+    rc = vsnprintf(ubuf->data + ubuf->len, avail, fmt, ap);
 
-    if (sz >= avail)
+    if (rc <= 0 || (sz = (size_t) rc) >= avail)
     {
-        /* enlarge the buffer (make it at least 128 bytes bigger) */
-        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MIN(128, sz + 1)));
-
         /* zero-term the buffer (vsnprintf has removed the last \0!) */
-        ubuf->data[ubuf->len] = '\0';
+        if (avail)
+            ubuf->data[ubuf->len] = '\0';
+
+        dbg_err_if (rc <= 0);
+
+        /* enlarge the buffer (make it at least 128 bytes bigger) */
+        dbg_err_if (u_buf_reserve(ubuf, ubuf->len + U_MAX(128, sz + 1)));
 
         va_end(ap);
 
-- 
2.43.0


From 3f49dddb2a8bce95b8552ae5ace06c36b30f6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 08/60] fix: u_tokenize: do not write past a token vector with
 a single slot

---
 srcs/toolbox/misc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 0f0a3b6..a426010 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -903,15 +903,14 @@ int u_tokenize (char *wlist, const char *delim, char **tokv, size_t tokv_sz)
 
     ap = tokv;
 
-    for ( ; (*ap = strsep(&wlist, delim)) != NULL; )
+    /* the last slot is for the stopper */
+    while (ap < &tokv[tokv_sz - 1] && (*ap = strsep(&wlist, delim)) != NULL)
     {
         /* skip empty field */
         if (**ap == '\0')
             continue;
 
-        /* check bounds */
-        if (++ap >= &tokv[tokv_sz - 1])
-            break;
+        ++ap;
     }
 
     /* put an explicit stopper to tokv */
-- 
2.43.0


From 803c38f8709c2abaae5f5d8a862a425358b9f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 09/60] fix: u_atol, u_atoumax: ignore a stale errno, refuse
 strings without digits

---
 srcs/toolbox/misc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index a426010..4cc6247 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -721,6 +721,7 @@ int u_atol (const char *nptr, long *pl)
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pl == NULL, ~0);
  
+    errno = 0;
     tmp = strtol(nptr, &endptr, 10);
     
     dbg_err_sif (tmp == 0 && errno == EINVAL);
@@ -794,16 +795,19 @@ err:
  */
 int u_atoumax (const char *nptr, uintmax_t *pumax)
 {
+    char *endptr;
     uintmax_t tmp; 
     int saved_errno = errno;
 
     dbg_return_if (nptr == NULL, ~0);
     dbg_return_if (pumax == NULL, ~0);
  
-    tmp = strtoumax(nptr, (char **) NULL, 10);
+    errno = 0;
+    tmp = strtoumax(nptr, &endptr, 10);
     
     dbg_err_if (tmp == 0 && errno == EINVAL);
     dbg_err_if (tmp == UINTMAX_MAX && errno == ERANGE);
+    dbg_err_ifm (nptr == endptr, "invalid base10 string: %s", nptr);
         
     *pumax = tmp;
     
-- 
2.43.0


From 276c20a5d57e47ce45b93db82e7d864514e71280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:03 +0000
Subject: [PATCH 10/60] fix: u_data_dump, u_load_file: handle empty content;
 report data lost at close

---
 srcs/toolbox/misc.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/misc.c b/srcs/toolbox/misc.c
index 4cc6247..b60cf3a 100644
--- a/srcs/toolbox/misc.c
+++ b/srcs/toolbox/misc.c
@@ -502,8 +502,8 @@ int u_data_dump (char *data, size_t sz, const char *file)
     FILE *fp = NULL;
 
     dbg_err_sif ((fp = fopen(file, "w")) == NULL); 
-    dbg_err_sif (fwrite(data, sz, 1, fp) < 1);
-    fclose(fp);
+    dbg_err_sif (sz && fwrite(data, sz, 1, fp) < 1);
+    dbg_return_sif (fclose(fp) != 0, ~0);
 
     return 0;
 err:
@@ -539,8 +539,8 @@ int u_load_file (const char *path, size_t sz_max, char **pbuf, size_t *psz)
     sz = sb.st_size;
     dbg_err_ifm (sz_max > 0 && sz > sz_max, 
             "file too big (%zu vs %zu bytes)", sz, sz_max);
-    dbg_err_sif ((buf = u_zalloc(sz)) == NULL);
-    dbg_err_sifm (fread(buf, sz, 1, fp) != 1, "%s", path);
+    dbg_err_sif ((buf = u_zalloc(sz ? sz : 1)) == NULL);
+    dbg_err_sifm (sz && fread(buf, sz, 1, fp) != 1, "%s", path);
     
     U_FCLOSE(fp);
     
-- 
2.43.0


From 68eab51a805d8d322f0f024eaff0c05cb18497f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:07 +0000
Subject: [PATCH 11/60] fix: u_hmap_new: release options and buckets on failure

---
 srcs/toolbox/hmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 71eeef6..7df1942 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -595,6 +595,8 @@ int u_hmap_new (u_hmap_opts_t *opts, u_hmap_t **phmap)
     return U_HMAP_ERR_NONE;
 
 err:
+    u_hmap_opts_free(c->opts);
+    u_free(c->hmap);
     u_free(c);
     *phmap = NULL;
     return U_HMAP_ERR_FAIL;
-- 
2.43.0


From d2526d7e1e62ba60c4baa55f4ab37266d19b35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:53 +0000
Subject: [PATCH 12/60] fix: u_array_resize: zero the new slots as
 u_array_create does

---
 srcs/toolbox/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/array.c b/srcs/toolbox/array.c
index 8c7c4f2..9afaefe 100644
--- a/srcs/toolbox/array.c
+++ b/srcs/toolbox/array.c
@@ -211,6 +211,10 @@ int u_array_resize (u_array_t *da, size_t idx)
     new_base = u_realloc(da->base, new_nslots * sizeof_type[da->type]);
     warn_err_sif (new_base == NULL);
 
+    /* new slots start out as zero, as on creation */
+    memset((char *) new_base + da->nslots * sizeof_type[da->type], 0,
+            (new_nslots - da->nslots) * sizeof_type[da->type]);
+
     da->base = new_base;
     da->nslots = new_nslots;
 
-- 
2.43.0


From 1127996d2755a63781f822ab04f3059f77dad729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:57 +0000
Subject: [PATCH 13/60] fix: u_list_clear: reset the element count

---
 srcs/toolbox/list.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/list.c b/srcs/toolbox/list.c
index 16f2c00..0b43b09 100644
--- a/srcs/toolbox/list.c
+++ b/srcs/toolbox/list.c
@@ -360,6 +360,8 @@ int u_list_clear (u_list_t *list)
     {
         TAILQ_REMOVE(&list->head, item, np);
 
+        list->count--;
+
         u_free(item);
     }
 
-- 
2.43.0


From b17544f9ec1fea45eb7ea2468850815aa8d90fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:44 +0000
Subject: [PATCH 14/60] fix: u_b64_decode stays within its buffers and refuses
 malformed text

---
 srcs/toolbox/b64.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/b64.c b/srcs/toolbox/b64.c
index fb4246f..da99ac8 100644
--- a/srcs/toolbox/b64.c
+++ b/srcs/toolbox/b64.c
@@ -36,7 +36,7 @@ static const size_t D[256] = {
 static inline size_t val (int c);
 static inline int is_base64 (int c);
 static inline void chunk_encode (uint8_t in[3], char out[4], int len);
-static inline void chunk_decode (char in[4], uint8_t out[3]);
+static inline void chunk_decode (char in[4], uint8_t out[3], size_t len);
 
 /**
     \defgroup b64 Base64 codec
@@ -124,7 +124,7 @@ int u_b64_encode (const uint8_t *in, size_t in_sz, char *out, size_t out_sz)
 int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 {
     char buf[4];
-    size_t i, len, pad, tot_sz = *out_sz;
+    size_t i, len, pad, tot_sz;
     uint8_t *pout;
 
     dbg_return_if (in == NULL, ~0);
@@ -132,6 +132,8 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
     dbg_return_if (out == NULL, ~0);
     dbg_return_if (out_sz == NULL, ~0);
 
+    tot_sz = *out_sz;
+
     for (pout = out; in_sz; )
     {
         for (pad = 0, len = 0, i = 0; i < 4; ++i)
@@ -142,7 +144,7 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
                 if (buf[i] == '=')
                     ++pad;
-                else if (!is_base64(buf[i]))    
+                else if (pad || !is_base64(buf[i]))    
                     return ~0;
 
                 ++len;
@@ -155,9 +157,13 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
         {
             size_t nlen = 3 - pad;
 
+            /* Groups are made of four characters, at most two of them pad. */
+            if (len < 4 || pad > 2)
+                return ~0;
+
             if (tot_sz >= nlen)
             {
-                chunk_decode(buf, pout);
+                chunk_decode(buf, pout, nlen);
                 tot_sz -= nlen; /* Take care of subtracting pad bytes. */
                 pout += nlen;
             } 
@@ -177,12 +183,12 @@ int u_b64_decode (const char *in, size_t in_sz, uint8_t *out, size_t *out_sz)
 
 static inline int is_base64 (int c) 
 {
-    return D[c];
+    return D[(unsigned char) c];
 }
 
 static inline size_t val (int c) 
 {
-    return (D[c] - 1);
+    return (D[(unsigned char) c] - 1);
 }
 
 static inline void chunk_encode (uint8_t in[3], char out[4], int len)
@@ -193,10 +199,12 @@ static inline void chunk_encode (uint8_t in[3], char out[4], int len)
     out[3] = len > 2 ? E[in[2] & 0x3f] : '=';
 }
 
-static inline void chunk_decode (char in[4], uint8_t out[3])
+static inline void chunk_decode (char in[4], uint8_t out[3], size_t len)
 {   
     out[0] = (val(in[0]) << 2) | (val(in[1]) >> 4);
-    out[1] = ((val(in[1]) & 0x0f) << 4) | (val(in[2]) >> 2);
-    out[2] = ((val(in[2]) & 0x03) << 6) | val(in[3]);
+    if (len > 1)
+        out[1] = ((val(in[1]) & 0x0f) << 4) | (val(in[2]) >> 2);
+    if (len > 2)
+        out[2] = ((val(in[2]) & 0x03) << 6) | val(in[3]);
 }
 
-- 
2.43.0


From 214450ad095cb9c555c8ea56406c518522c0e5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:35 +0000
Subject: [PATCH 15/60] fix: log: refuse records that do not fit instead of
 delivering them truncated

---
 srcs/toolbox/log.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/log.c b/srcs/toolbox/log.c
index d7877c7..f1b5179 100644
--- a/srcs/toolbox/log.c
+++ b/srcs/toolbox/log.c
@@ -99,6 +99,7 @@ static inline const char* u_log_label(int lev)
 static int u_log(int fac, int level, const char *fmt, ...)
 {
     va_list ap;
+    int rc;
     char buf[U_MAX_LOG_LENGTH];
 
     va_start(ap, fmt); 
@@ -107,7 +108,8 @@ static int u_log(int fac, int level, const char *fmt, ...)
 
     if(hook)
     {
-        if(vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap) > U_MAX_LOG_LENGTH)
+        rc = vsnprintf(buf, U_MAX_LOG_LENGTH, fmt, ap);
+        if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         {
             va_end(ap);
             u_log_unlock();
@@ -157,7 +159,7 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
     rc = vsnprintf(msg, U_MAX_LOG_LENGTH, fmt, ap);
     va_end(ap);
 
-    if(rc >= U_MAX_LOG_LENGTH)
+    if(rc < 0 || rc >= U_MAX_LOG_LENGTH)
         goto err; /* message too long */
 
     /* init empty strings */
@@ -172,12 +174,15 @@ int u_log_write_ex(int fac, int lev, int flags, int err, const char* file,
 
     /* ok, send the msg to the logger */
     if(flags & LOG_WRITE_FLAG_CTX)
-        u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:%s:%d:%s] %s %s", 
                u_log_label(lev), getpid(), file, line, func, msg, errmsg);
     else
-        u_log(fac, lev, "[%s][%d:::] %s %s", 
+        rc = u_log(fac, lev, "[%s][%d:::] %s %s", 
                u_log_label(lev), getpid(), msg, errmsg);
 
+    if(rc)
+        goto err; /* record too long */
+
     restore_errno(savederr);
     return 0;
 err:
-- 
2.43.0


From 9e5a37fcc3c0a25898b54c4cf7ab47d224e6168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 16/60] fix: u_copy: detect short writes and read errors, close
 each file once

---
 srcs/toolbox/fs.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index fa37772..d6ed849 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -49,12 +49,16 @@ int u_copy (const char *src, const char *dst)
 
     while((c = fread(buf, 1, sizeof(buf), sfp)) > 0)
     {
-        dbg_err_sifm(fwrite(buf, 1, c, dfp) == 0, "error writing to %s", dst);
+        dbg_err_sifm(fwrite(buf, 1, c, dfp) != c, "error writing to %s", dst);
     }
 
-    dbg_err_sif(fclose(sfp)); sfp = NULL;
+    dbg_err_sifm(ferror(sfp), "error reading from %s", src);
 
-    dbg_err_sifm(fclose(dfp), "error flushing %s", dst); dfp = NULL;
+    c = fclose(sfp); sfp = NULL;
+    dbg_err_sif(c);
+
+    c = fclose(dfp); dfp = NULL;
+    dbg_err_sifm(c, "error flushing %s", dst);
 
     return 0;
 err:
-- 
2.43.0


From 4cfc50e34d833987844e91c3c8b2f5985319acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 17/60] fix: u_move: fail if the source cannot be removed

---
 srcs/toolbox/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/fs.c b/srcs/toolbox/fs.c
index d6ed849..3535090 100644
--- a/srcs/toolbox/fs.c
+++ b/srcs/toolbox/fs.c
@@ -98,7 +98,7 @@ int u_move(const char *src, const char *dst)
     dbg_err_if(u_copy(src, dst));
 #endif
 
-    dbg_if(u_remove(src) < 0);
+    dbg_err_if(u_remove(src));
 
     return 0;
 err:
-- 
2.43.0


From 77bd61f55f2fbd9897a7843c9f36b7af838668f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 18/60] fix: u_hmap_del: take the deleted element out of the
 policy queue

---
 srcs/toolbox/hmap.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 7df1942..0031fd2 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -852,6 +852,11 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
         return U_HMAP_ERR_FAIL;
 
     dbg_err_if (o == NULL);
+
+    /* no discard policy must refer to it any more */
+    if (o->pqe)
+        dbg_err_if (__queue_del(hmap, o));
+
     LIST_REMOVE(o, next);
 
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
@@ -1619,8 +1624,6 @@ static int __queue_pop_front (u_hmap_t *hmap, u_hmap_o_t **obj)
 
     dbg_err_if ((first = TAILQ_FIRST(&hmap->pcy.queue)) == NULL);
     dbg_err_if (u_hmap_del(hmap, first->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, first, next);
-    __q_o_free(first);
 
     return U_HMAP_ERR_NONE;
 err:
@@ -1637,8 +1640,6 @@ static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj)
     dbg_err_if ((last = TAILQ_LAST(&hmap->pcy.queue, u_hmap_q_h_s))
             == NULL);
     dbg_err_if (u_hmap_del(hmap, last->ho->key, obj));
-    TAILQ_REMOVE(&hmap->pcy.queue, last, next);
-    __q_o_free(last);
 
     return U_HMAP_ERR_NONE;
 
-- 
2.43.0


From a188f25c86a15cd971f8f8a9710a1abf538bf65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 19/60] fix: u_hmap_clear: reset the element count

---
 srcs/toolbox/hmap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 0031fd2..6fcf306 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -626,6 +626,8 @@ void u_hmap_clear (u_hmap_t *hmap)
             LIST_REMOVE(obj, next);
             if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
                 __o_free(hmap, obj);
+            else
+                obj->pqe = NULL;
         }
     }
 
@@ -635,6 +637,8 @@ void u_hmap_clear (u_hmap_t *hmap)
         TAILQ_REMOVE(&hmap->pcy.queue, data, next);
         __q_o_free(data);
     }
+
+    hmap->sz = 0;
 }
 
 /**
-- 
2.43.0


From d555f9dff2e7a280bad85bbbdab5eea1d902b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 20/60] fix: hmap: linear probing with deletions and full
 tables

---
 srcs/toolbox/hmap.c | 103 ++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 37 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 6fcf306..9328c67 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -118,6 +118,8 @@ struct u_hmap_s
 typedef struct u_hmap_e_s u_hmap_e_t;
 
 static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o);
+static size_t __bucket (u_hmap_t *hmap, const void *key);
+static void __linear_fill (u_hmap_t *hmap, size_t hole);
 
 static int __opts_check (u_hmap_opts_t *opts);
 static int __pcy_setup (u_hmap_t *hmap);
@@ -684,7 +686,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     int comp;
     int rc;
     size_t hash;
-    size_t last;
+    size_t i;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (obj == NULL);
@@ -696,19 +698,18 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
             hmap->opts->policy == U_HMAP_PCY_NONE)
         dbg_err_if (__resize(hmap));
 
-    hash = hmap->opts->f_hash(obj->key, hmap->size);
-
-    /* rehash if strong hash is required */
-    if (hmap->opts->f_hash != &__f_hash &&
-            !(hmap->opts->options & U_HMAP_OPTS_HASH_STRONG))
+    /* make room for a new key */
+    if (hmap->sz >= hmap->opts->max &&
+            hmap->opts->policy != U_HMAP_PCY_NONE &&
+            __get(hmap, obj->key, &o))
     {
-        enum { MAX_INT = 20 };
-        char h[MAX_INT];
-
-        u_snprintf(h, MAX_INT, "%u", hash);
-        hash = __f_hash(h, hmap->size);
+        u_dbg("Cache full - freeing according to policy '%s'",
+                __pcy2str(hmap->opts->policy));
+        dbg_err_if (hmap->pcy.pop(hmap, old));
     }
 
+    hash = __bucket(hmap, obj->key);
+
     x = &hmap->hmap[hash];
 
     switch (hmap->opts->type)
@@ -748,9 +749,7 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
 
         case U_HMAP_TYPE_LINEAR:
 
-            last = ((hash + hmap->size-1) % hmap->size);
-
-            for (; hash != last; hash = ((hash+1) % hmap->size),
+            for (i = 0; i < hmap->size; ++i, hash = ((hash+1) % hmap->size),
                     x = &hmap->hmap[hash])
             {
                 if (LIST_EMPTY(x))
@@ -778,14 +777,6 @@ err:
 
 end:
 
-    if (hmap->sz >= hmap->opts->max &&
-            hmap->opts->policy != U_HMAP_PCY_NONE)
-    {
-        u_dbg("Cache full - freeing according to policy '%s'",
-                __pcy2str(hmap->opts->policy));
-        dbg_err_if (hmap->pcy.pop(hmap, old));
-    }
-
     if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
         dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
     hmap->sz++;
@@ -845,6 +836,7 @@ err:
 int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
 {
     u_hmap_o_t *o = NULL;
+    u_hmap_e_t *e;
 
     dbg_err_if (hmap == NULL);
     dbg_err_if (key == NULL);
@@ -861,8 +853,12 @@ int u_hmap_del (u_hmap_t *hmap, const void *key, u_hmap_o_t **obj)
     if (o->pqe)
         dbg_err_if (__queue_del(hmap, o));
 
+    e = (u_hmap_e_t *) o->next.le_prev;
     LIST_REMOVE(o, next);
 
+    if (hmap->opts->type == U_HMAP_TYPE_LINEAR)
+        __linear_fill(hmap, (size_t) (e - hmap->hmap));
+
     if (hmap->opts->options & U_HMAP_OPTS_OWNSDATA)
         __o_free(hmap, o);
     else
@@ -1548,31 +1544,66 @@ err:
     return U_HMAP_ERR_FAIL;
 }
 
-/* Retrieve an hmap element given a key */
-static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
+/* Bucket where the search for 'key' starts */
+static size_t __bucket (u_hmap_t *hmap, const void *key)
 {
-    u_hmap_o_t *obj;
-    u_hmap_e_t *x;
-    int comp;
     size_t hash;
-    size_t last;
-
-    dbg_err_if (hmap == NULL);
-    dbg_err_if (key == NULL);
-    dbg_err_if (o == NULL);
 
     hash = hmap->opts->f_hash(key, hmap->size);
 
+    /* rehash if strong hash is required */
     if (hmap->opts->f_hash != &__f_hash &&
             !(hmap->opts->options & U_HMAP_OPTS_HASH_STRONG))
     {
-        enum { MAX_INT = 20 };
+        enum { MAX_INT = 24 };
         char h[MAX_INT];
 
-        u_snprintf(h, MAX_INT, "%u", hash);
+        u_snprintf(h, MAX_INT, "%lu", (unsigned long) hash);
         hash = __f_hash(h, hmap->size);
     }
 
+    return hash;
+}
+
+/* Move back objects displaced by the one which has left the 'hole', so that
+ * there is no empty bucket between the start of a search and its object */
+static void __linear_fill (u_hmap_t *hmap, size_t hole)
+{
+    u_hmap_o_t *o;
+    size_t i, hash;
+
+    for (i = (hole + 1) % hmap->size;
+            (o = LIST_FIRST(&hmap->hmap[i])) != NULL;
+            i = (i + 1) % hmap->size)
+    {
+        hash = __bucket(hmap, o->key);
+
+        /* still reachable: search starts after the hole */
+        if ((hole < i) ? (hash > hole && hash <= i) 
+                : (hash > hole || hash <= i))
+            continue;
+
+        LIST_REMOVE(o, next);
+        LIST_INSERT_HEAD(&hmap->hmap[hole], o, next);
+        hole = i;
+    }
+}
+
+/* Retrieve an hmap element given a key */
+static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
+{
+    u_hmap_o_t *obj;
+    u_hmap_e_t *x;
+    int comp;
+    size_t hash;
+    size_t i;
+
+    dbg_err_if (hmap == NULL);
+    dbg_err_if (key == NULL);
+    dbg_err_if (o == NULL);
+
+    hash = __bucket(hmap, key);
+
     x = &hmap->hmap[hash];
 
     switch (hmap->opts->type)
@@ -1596,9 +1627,7 @@ static int __get (u_hmap_t *hmap, const void *key, u_hmap_o_t **o)
 
         case U_HMAP_TYPE_LINEAR:
 
-            last = ((hash + hmap->size -1) % hmap->size);
-
-            for (; hash != last; hash = ((hash +1) % hmap->size),
+            for (i = 0; i < hmap->size; ++i, hash = ((hash +1) % hmap->size),
                     x = &hmap->hmap[hash])
             {
                 if (!LIST_EMPTY(x))
-- 
2.43.0


From 1838ebfd3183054f172f1a91934b6d3f2aa6abc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 21/60] fix: hmap: release the object once when an insertion
 fails

---
 srcs/toolbox/hmap.c | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index 9328c67..d207896 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -357,7 +357,17 @@ int u_hmap_easy_put (u_hmap_t *hmap, const char *key, const void *val)
     int rc = U_HMAP_ERR_NONE;
     u_hmap_o_t *obj = NULL;
 
-    dbg_err_if ((obj = u_hmap_o_new(hmap, key, val)) == NULL);
+    dbg_err_if (hmap == NULL || key == NULL || val == NULL);
+
+    if ((obj = u_hmap_o_new(hmap, key, val)) == NULL)
+    {
+        /* the value is ours, exactly as if it could not be inserted */
+        if (hmap->opts->val_type == U_HMAP_OPTS_DATATYPE_POINTER &&
+                hmap->opts->f_val_free)
+            hmap->opts->f_val_free((void *) val);
+        goto err;
+    }
+
     dbg_err_if ((rc = u_hmap_put(hmap, obj, NULL)));
 
     return rc;
@@ -773,12 +783,20 @@ int u_hmap_put (u_hmap_t *hmap, u_hmap_o_t *obj, u_hmap_o_t **old)
     }
 
 err:
+    /* whatever the outcome, the object is up to the hmap if it owns data */
+    if (hmap && obj && (hmap->opts->options & U_HMAP_OPTS_OWNSDATA))
+        __o_free(hmap, obj);
+
     return U_HMAP_ERR_FAIL;
 
 end:
 
-    if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
-        dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+    if ((hmap->pcy.ops & U_HMAP_PCY_OP_PUT) &&
+            hmap->pcy.push(hmap, obj, &obj->pqe))
+    {
+        LIST_REMOVE(obj, next);
+        goto err;
+    }
     hmap->sz++;
 
     return U_HMAP_ERR_NONE;
@@ -940,6 +958,9 @@ u_hmap_o_t *u_hmap_o_new (u_hmap_t *hmap, const void *key, const void *val)
     return obj;
 
 err:
+    if (obj && (hmap->opts->options & U_HMAP_OPTS_OWNSDATA) &&
+            hmap->opts->key_type != U_HMAP_OPTS_DATATYPE_POINTER)
+        u_free(obj->key);
     U_FREEF(obj, u_hmap_o_free);
 
     return NULL;
@@ -1023,9 +1044,9 @@ static int __o_overwrite (u_hmap_t *hmap, u_hmap_o_t *o, u_hmap_o_t *obj,
     {
         if (hmap->pcy.ops & U_HMAP_PCY_OP_PUT)
         {
-            /* delete old object and enqueue new one */
-            dbg_err_if (__queue_del(hmap, o));
+            /* enqueue new object and delete old one */
             dbg_err_if (hmap->pcy.push(hmap, obj, &obj->pqe));
+            dbg_err_if (__queue_del(hmap, o));
         }
 
         /* replace object in hmap list */
@@ -1723,8 +1744,12 @@ static int __queue_push_count (u_hmap_t *hmap, u_hmap_o_t *obj,
     {
         /* no reference to queue entry -> count == 0 */
         dbg_err_if ((new = __q_o_new(obj)) == NULL);
+        if ((count = (int *) u_zalloc(sizeof(int))) == NULL)
+        {
+            __q_o_free(new);
+            goto err;
+        }
         TAILQ_INSERT_HEAD(&hmap->pcy.queue, new, next);
-        dbg_err_sif ((count = (int *) u_zalloc(sizeof(int))) == NULL);
         new->data = (void *) count;
         *counts = new;
         /*
-- 
2.43.0


From b34afec472ea1b79aae8a0c1391f917693ac7c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 22/60] fix: u_hmap_copy: keep both maps consistent, resize
 keeps its options

---
 srcs/toolbox/hmap.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index d207896..de39cad 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -146,6 +146,7 @@ static int __queue_pop_back (u_hmap_t *hmap, u_hmap_o_t **obj);
 static int __queue_del (u_hmap_t *hmap, u_hmap_o_t *obj);
 
 static int __resize(u_hmap_t *hmap);
+static int __move(u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner);
 static int __next_prime(size_t *prime, size_t sz, size_t *idx);
 
 static const char *__datatype2str(u_hmap_options_datatype_t datatype);
@@ -1543,6 +1544,12 @@ const char *u_hmap_strerror (u_hmap_ret_t rc)
  * \retval  U_HMAP_ERR_FAIL     on failure
  */
 int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
+{
+    return __move(to, from, to);
+}
+
+/* Move all objects to another hmap (they will belong to 'owner') */
+static int __move (u_hmap_t *to, u_hmap_t *from, u_hmap_t *owner)
 {
     u_hmap_o_t *obj;
     size_t i;
@@ -1554,7 +1561,11 @@ int u_hmap_copy (u_hmap_t *to, u_hmap_t *from)
     {
         while ((obj = LIST_FIRST(&from->hmap[i])) != NULL)
         {
+            if (obj->pqe)
+                dbg_err_if (__queue_del(from, obj));
             LIST_REMOVE(obj, next);
+            from->sz--;
+            obj->hmap = owner;
             dbg_err_if (u_hmap_put(to, obj, NULL));
         }
     }
@@ -2147,13 +2158,10 @@ static int __resize(u_hmap_t *hmap)
             U_HMAP_RATE_RESIZE * newopts->size,
             &hmap->px));
     dbg_err_if (u_hmap_new(newopts, &newmap));
-    u_hmap_opts_free(newopts);
-
-    /* remove any ownership from old map to copy elements */
-    hmap->opts->options &= !U_HMAP_OPTS_OWNSDATA;
+    u_hmap_opts_free(newopts), newopts = NULL;
 
     /* copy old elements to new map policy */
-    dbg_err_if (u_hmap_copy(newmap, hmap));
+    dbg_err_if (__move(newmap, hmap, hmap));
 
     /* free old allocated objects */
     u_hmap_opts_free(hmap->opts);
@@ -2166,7 +2174,9 @@ static int __resize(u_hmap_t *hmap)
     u_dbg("resized to: %u", hmap->size);
 
     return 0;
+
 err:
+    u_hmap_opts_free(newopts);
     return ~0;
 }
 
-- 
2.43.0


From 3c666d574f90e0e6e0e4f3600bd9ba4b3a6df44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:22 +0000
Subject: [PATCH 23/60] fix: hmap: initialise the policy comparison, accept no
 NULL result

---
 srcs/toolbox/hmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/hmap.c b/srcs/toolbox/hmap.c
index de39cad..749e893 100644
--- a/srcs/toolbox/hmap.c
+++ b/srcs/toolbox/hmap.c
@@ -1128,7 +1128,8 @@ int u_hmap_opts_new (u_hmap_opts_t **opts)
 
     return U_HMAP_ERR_NONE;
 err:
-    *opts = NULL;
+    if (opts)
+        *opts = NULL;
     return U_HMAP_ERR_FAIL;
 }
 
@@ -1174,6 +1175,7 @@ void u_hmap_opts_init (u_hmap_opts_t *opts)
     opts->key_sz = sizeof(void *);
     opts->val_sz = sizeof(void *);
     opts->easy = 0;
+    opts->f_pcy_cmp = NULL;
 
     return;
 }
-- 
2.43.0


From e80679a5638a01dccc634ae39eaa55805987326e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 24/60] fix: pwd: keep the old snapshot until a reload has
 succeeded

---
 srcs/toolbox/pwd.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index c756bd1..6258ff8 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -425,19 +425,27 @@ int u_pwd_in_memory (u_pwd_t *pwd)
 
 static int u_pwd_load (u_pwd_t *pwd)
 {
+    u_hmap_t *old;
+
     dbg_return_if (pwd == NULL, ~0);
     dbg_return_if (!pwd->in_memory, ~0);
 
-    /* wipe away old snapshot */
-    if (pwd->db)
-        (void) u_pwd_db_term(pwd);
+    /* keep old snapshot until the new one is complete */
+    old = pwd->db;
+    pwd->db = NULL;
     
     /* create new hash map and load master db contents into it */
     dbg_err_if (u_pwd_db_new(pwd));
     dbg_err_if (u_pwd_db_load(pwd));
 
+    /* wipe away old snapshot */
+    if (old)
+        u_hmap_easy_free(old);
+
     return 0;
 err:
+    (void) u_pwd_db_term(pwd);
+    pwd->db = old;
     return ~0;
 }
 
@@ -613,11 +621,13 @@ static int u_pwd_need_reload (u_pwd_t *pwd)
     if (!pwd->cb_notify(pwd->res_uri, pwd->last_mod, &update_timestamp))
         return 0;
 
-    /* update notified: set .last_mod */
+    /* reload db to memory (in case it fails try again on next access) */
+    dbg_return_if (u_pwd_load(pwd), ~0);
+
+    /* set .last_mod */
     pwd->last_mod = update_timestamp;
-    
-    /* reload db to memory */
-    return u_pwd_load(pwd);
+
+    return 0;
 }
 
 static int u_pwd_db_new (u_pwd_t *pwd)
-- 
2.43.0


From 2e3c488bead6dc10382ebea0d5b5834deb8207bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 25/60] fix: pwd: do not touch the byte before an empty line

---
 srcs/toolbox/pwd.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 6258ff8..8e85388 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -489,8 +489,7 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     dbg_err_ifm (!got_it, "user %s not found", user);
 
     /* remove terminating \n if needed */
-    if (ln[strlen(ln) - 1] == '\n')
-        ln[strlen(ln) - 1] = '\0';
+    ln[strcspn(ln, "\n")] = '\0';
 
     /* tokenize line: expect at least 2 fields: user and password */
     dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
@@ -686,8 +685,7 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             continue;
 
         /* remove trailing \n */
-        if (ln[strlen(ln) - 1] == '\n')
-            ln[strlen(ln) - 1] = '\0';
+        ln[strcspn(ln, "\n")] = '\0';
 
         /* tokenize line */
         dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
-- 
2.43.0


From 173912a64c0630238bb6769ee5f12e40504463c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 26/60] fix: pwd: match the complete user name

---
 srcs/toolbox/pwd.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 8e85388..a153d5f 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -495,6 +495,9 @@ static int u_pwd_retr_res (u_pwd_t *pwd, const char *user,
     dbg_err_ifm (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2,
             "bad syntax at line %zu (%s)", lc, ln);
 
+    /* 'user' could have a ':' inside, or not fit the search string */
+    dbg_err_ifm (strcmp(toks[0], user), "user %s not found", user);
+
     /* create new record */
     dbg_err_if (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
                 &rec));
-- 
2.43.0


From bddc93c89c075bcd6e5f16eabf2879e7d1e0026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 27/60] fix: pwd: free the hmap options

---
 srcs/toolbox/pwd.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index a153d5f..1050912 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -641,7 +641,12 @@ static int u_pwd_db_new (u_pwd_t *pwd)
     dbg_err_if (u_hmap_opts_new(&hopts));
     dbg_err_if (u_hmap_opts_set_val_freefunc(hopts, &__hmap_pwd_rec_free));
             
-    return u_hmap_easy_new(hopts, &pwd->db);
+    dbg_err_if (u_hmap_easy_new(hopts, &pwd->db));
+
+    /* hmap has got its own copy */
+    u_hmap_opts_free(hopts);
+
+    return 0;
 err:
     if (hopts)
         u_hmap_opts_free(hopts);
-- 
2.43.0


From 45df5e7ad776cb7d8549efa59ba7076300460688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:51 +0000
Subject: [PATCH 28/60] fix: pwd: a record that could not be inserted is freed
 by the hmap

---
 srcs/toolbox/pwd.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index 1050912..e6fee72 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -710,12 +710,9 @@ static int u_pwd_db_load (u_pwd_t *pwd)
             continue;
         }
 
-        /* push rec to db */
+        /* push rec to db (which owns it from now on, whatever the outcome) */
         dbg_ifb (u_pwd_db_push(pwd, rec))
-        {
             u_info("could not push record for entry at line %zu", lc);
-            u_pwd_rec_free(pwd, rec), rec = NULL;
-        }
 
         rec = NULL;
     }
-- 
2.43.0


From 1d782e800e5752985b33f38d2134eb954a85e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:00 +0000
Subject: [PATCH 29/60] fix: uri: refuse components that do not fit the token
 size

---
 srcs/toolbox/uri.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index beb22c7..53e71b1 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -426,7 +426,7 @@ static int u_uri_parse_scheme (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_rmatch(l);
 
     /* The match includes the first non-scheme char. */
-    (void) u_lexer_get_match(l, u->scheme);
+    warn_err_if (u_lexer_get_match(l, u->scheme) == NULL);
     u->scheme[strlen(u->scheme) - 1] = '\0';
 
     return 0;
@@ -481,7 +481,7 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->port);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->port));
 
     return 0;
 err:
@@ -512,7 +512,7 @@ static int u_uri_parse_host (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_rmatch(l);
 
-    (void) u_uri_adjust_greedy_match(l, u->host);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->host));
 
     return 0;
 err:
@@ -526,7 +526,8 @@ static int u_uri_adjust_greedy_match (u_lexer_t *l, char match[U_TOKEN_SZ])
     dbg_return_if (l == NULL, ~0);
     dbg_return_if (match == NULL, ~0);
 
-    (void) u_lexer_get_match(l, match);
+    /* Token could be too long. */
+    dbg_return_if (u_lexer_get_match(l, match) == NULL, ~0);
     mlen = strlen(match);
 
     if (!u_lexer_eot(l))
@@ -624,7 +625,7 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->userinfo);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->userinfo));
 
     /* 3.2.1.  User Information: Use of the format "user:password" in the 
      * userinfo field is deprecated.  Anyway... */
@@ -657,7 +658,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->user);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->user));
 
     /* Check if we've exhausted the userinfo string. */
     nop_goto_if (u_lexer_eot(l), end);
@@ -671,7 +672,7 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     do u_lexer_next(l, &c); while (!u_lexer_eot(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->pwd);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->pwd));
 
 end:
     u_lexer_free(l);
@@ -686,7 +687,7 @@ static int u_uri_parse_abempty (u_lexer_t *l, u_uri_t *u)
     u_lexer_record_lmatch(l);
     warn_err_if (u_uri_expect_path_abempty(l));
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -706,7 +707,7 @@ static int u_uri_parse_path (u_lexer_t *l, u_uri_t *u)
     warn_err_if (u_uri_expect_path_abempty(l));
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->path);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->path));
 
     return 0;
 err:
@@ -745,7 +746,7 @@ static int u_uri_parse_query (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_uri_adjust_greedy_match(l, u->query);
+    warn_err_if (u_uri_adjust_greedy_match(l, u->query));
 
     return 0;
 err:
@@ -768,7 +769,7 @@ static int u_uri_parse_fragment (u_lexer_t *l, u_uri_t *u)
         U_LEXER_NEXT(l, &c);
 
     u_lexer_record_rmatch(l);
-    (void) u_lexer_get_match(l, u->fragment);
+    warn_err_if (u_lexer_get_match(l, u->fragment) == NULL);
 
     return 0;
 err:
-- 
2.43.0


From 2c9370bb98cb127ee3414bd08175af8996b94622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:00 +0000
Subject: [PATCH 30/60] fix: uri: look for user information inside the
 authority only

---
 srcs/toolbox/uri.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 53e71b1..b2939d8 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -438,6 +438,7 @@ err:
 static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
 {
     char c, i = 0;
+    const char *at;
 
     /* Consume "//". */
     do {
@@ -447,7 +448,7 @@ static int u_uri_parse_authority (u_lexer_t *l, u_uri_t *u)
     } while (++i < 2);
 
     /* [userinfo "@"] */
-    if (strchr(u_lexer_lookahead(l), '@'))
+    if ((at = strpbrk(u_lexer_lookahead(l), "@/?#")) && *at == '@')
         warn_err_if (u_uri_parse_userinfo(l, u));
     warn_err_if (u_uri_parse_host(l, u));
 
@@ -617,11 +618,10 @@ static int u_uri_parse_userinfo (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    do {
-        U_LEXER_NEXT(l, &c);
-    } while (u_uri_match_pchar_minus_at_sign(l));
+    while (u_uri_match_pchar_minus_at_sign(l))
+        U_LEXER_NEXT(l, NULL);
 
-    if (u_lexer_peek(l) != '@')
+    if ((c = u_lexer_peek(l)) != '@')
         U_LEXER_ERR(l, "Expect \'@\', got \'%c\' instead.", c);
 
     u_lexer_record_rmatch(l);
@@ -643,7 +643,6 @@ err:
 /* TODO: refine ! */
 static int u_uri_crumble_user_password (u_uri_t *u)
 {
-    char c;
     u_lexer_t *l = NULL;
 
     dbg_return_if (!strlen(u->userinfo), ~0);
@@ -654,8 +653,9 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     /* User name. */
     u_lexer_record_lmatch(l);
 
-    /* Assume there is at least one char available. */
-    do u_lexer_next(l, &c); while (c != ':' && !u_lexer_eot(l));
+    /* Could be empty. */
+    while (!u_lexer_eot(l) && u_lexer_peek(l) != ':')
+        U_LEXER_NEXT(l, NULL);
 
     u_lexer_record_rmatch(l);
     warn_err_if (u_uri_adjust_greedy_match(l, u->user));
@@ -669,7 +669,8 @@ static int u_uri_crumble_user_password (u_uri_t *u)
     /* Password. */
     u_lexer_record_lmatch(l);
 
-    do u_lexer_next(l, &c); while (!u_lexer_eot(l));
+    while (!u_lexer_eot(l))
+        U_LEXER_NEXT(l, NULL);
 
     u_lexer_record_rmatch(l);
     warn_err_if (u_uri_adjust_greedy_match(l, u->pwd));
-- 
2.43.0


From 13f3ea22b4ed96904273638b3ec40d4763de85a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:00 +0000
Subject: [PATCH 31/60] fix: uri: a host starting with a digit may be a
 registered name

---
 srcs/toolbox/uri.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index b2939d8..7e83f84 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -580,7 +580,11 @@ err:
 
 static int u_uri_ipv4address_first (u_lexer_t *l)
 {
-    return (isdigit(u_lexer_peek(l)));
+    const char *la = u_lexer_lookahead(l);
+
+    /* It must be the whole host, otherwise it's a reg-name ("1and1.com"). */
+    return (isdigit((int) *la) &&
+            strchr(":/?#", la[strspn(la, "0123456789.")]) != NULL);
 }
 
 static int u_uri_parse_ipv4address (u_lexer_t *l)
-- 
2.43.0


From d6685046065a49bb25cfe2b91f3592c57f2f02ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 32/60] fix: uri: validate every percent encoding and refuse
 trailing characters

---
 srcs/toolbox/uri.c | 33 ++++++++++-----------------------
 1 file changed, 10 insertions(+), 23 deletions(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 7e83f84..8dfa915 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -40,7 +40,7 @@ static int u_uri_parse_ipliteral (u_lexer_t *l);
 static int u_uri_parse_ipv4address (u_lexer_t *l);
 static int u_uri_parse_regname (u_lexer_t *l);
 static int u_uri_expect_colon (u_lexer_t *l);
-static int u_uri_expect_pct_encoded (u_lexer_t *l);
+static int u_uri_pct_encoded_first (u_lexer_t *l);
 static int u_uri_expect_segment_nz (u_lexer_t *l);
 static int u_uri_expect_path_abempty (u_lexer_t *l);
 static int u_uri_query_first (u_lexer_t *l);
@@ -375,6 +375,10 @@ static int u_uri_parser (u_lexer_t *l, u_uri_opts_t opts, u_uri_t **pu)
     if (u_uri_fragment_first(l))
         warn_err_if (u_uri_parse_fragment(l, u));
 
+    /* Nothing else is allowed. */
+    if (!u_lexer_eot(l))
+        U_LEXER_ERR(l, "Unexpected char \'%c\'.", u_lexer_peek(l));
+
     *pu = u;
 
     return 0;
@@ -788,9 +792,9 @@ static int u_uri_match_ups (u_lexer_t *l)
 
     switch ((c = u_lexer_peek(l)))
     {
-        /* pct-encoded */
+        /* pct-encoded (don't consume it: hex digits match on their own) */
         case '%':
-            warn_err_if (u_uri_expect_pct_encoded(l));
+            return u_uri_pct_encoded_first(l);
 
         /* unreserved */
         case '-': case '.': case '_': case '~': 
@@ -805,10 +809,6 @@ static int u_uri_match_ups (u_lexer_t *l)
         default:
             return isalnum((int) c);
     }
-
-    /* fallthrough */
-err:
-    return 0;
 }
 
 static int u_uri_match_pchar (u_lexer_t *l)
@@ -833,24 +833,11 @@ static int u_uri_match_pchar_minus_at_sign (u_lexer_t *l)
     }
 }
 
-static int u_uri_expect_pct_encoded (u_lexer_t *l)
+static int u_uri_pct_encoded_first (u_lexer_t *l)
 {
-    char i, c;
-
-    if (u_lexer_peek(l) != '%')
-        U_LEXER_ERR(l, "Expect \'%%\', got \'%c\' instead.", c);
-
-    for (i = 0; i < 2; i++)
-    {
-        U_LEXER_NEXT(l, &c);
-
-        if (!isxdigit((int) c))
-            U_LEXER_ERR(l, "Non hex digit \'%c\' in percent encoding.", c);
-    }
+    const char *la = u_lexer_lookahead(l);
 
-    return 0;
-err:
-    return ~0;
+    return (la[0] == '%' && isxdigit((int) la[1]) && isxdigit((int) la[2]));
 }
 
 /* 1*pchar */
-- 
2.43.0


From c4bc90775c049d3bb541ccb8644d73e82070bdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 33/60] fix: json: no blanks inside true, false and null

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index b77059d..ea20bc5 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1418,7 +1418,7 @@ static int u_json_match_seq (u_lexer_t *jl, u_json_t *jo, int type,
 
     for (i = 0; i < rem_sz; i++)
     {
-        U_LEXER_SKIP(jl, &c);
+        U_LEXER_NEXT(jl, &c);
         if (c != *(rem + i))
         {
             U_LEXER_ERR(jl, "expect \'%c\', got %c at %s", 
-- 
2.43.0


From 4b2db89bbc82ffb220da673e80ff1c0be3057330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 34/60] fix: json: refuse tokens that do not fit instead of
 using an uninitialised match

---
 srcs/toolbox/json.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index ea20bc5..510f23a 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1295,14 +1295,15 @@ static int u_json_match_number (u_lexer_t *jl, u_json_t *jo)
     /* Register right side of the matched number. */
     u_lexer_record_rmatch(jl);
 
-    /* Take care of the fact that the match includes the first non-number char
-     * (see u_json_match_{int,exp,frac} for details). */
-    (void) u_lexer_get_match(jl, match);
-    match[strlen(match) - 1] = '\0';
-
     /* Push the matched number into the supplied json object. */
     if (jo)
     {
+        /* Take care of the fact that the match includes the first non-number 
+         * char (see u_json_match_{int,exp,frac} for details). */
+        if (u_lexer_get_match(jl, match) == NULL)
+            U_LEXER_ERR(jl, "number too long");
+        match[strlen(match) - 1] = '\0';
+
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_NUMBER));
         dbg_err_if (u_json_set_val(jo, match));
     }
@@ -1610,14 +1611,17 @@ static int u_json_match_pair (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_depth(pair, jo->depth + 1));
     }
 
-    (void) u_lexer_get_match(jl, match);
+    if (jo)
+    {
+        if (u_lexer_get_match(jl, match) == NULL)
+            U_LEXER_ERR(jl, "key too long");
 
-    /* Trim trailing '"'. */
-    if ((mlen = strlen(match)) >= 1)
-        match[mlen - 1] = '\0';
+        /* Trim trailing '"'. */
+        if ((mlen = strlen(match)) >= 1)
+            match[mlen - 1] = '\0';
 
-    if (jo)
         dbg_err_if (u_json_set_key(pair, match));
+    }
 
     /* Consume trailing white spaces, if any. */
     if (isspace((int) u_lexer_peek(jl)))
@@ -1712,7 +1716,8 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
         dbg_err_if (u_json_set_type(jo, U_JSON_TYPE_STRING));
 
         /* Remove trailing '"' from match. */
-        (void) u_lexer_get_match(jl, match);
+        if (u_lexer_get_match(jl, match) == NULL)
+            U_LEXER_ERR(jl, "string too long");
 
         /* Trim trailing '"'. */
         if ((mlen = strlen(match)) >= 1)
-- 
2.43.0


From eb508b0942d5d84dbaa791874813d3bf7acea1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 35/60] fix: json: only U+0000 to U+001F need escaping

---
 srcs/toolbox/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 510f23a..5c0e866 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1691,7 +1691,7 @@ static int u_json_match_string (u_lexer_t *jl, u_json_t *jo)
                     U_LEXER_ERR(jl, "invalid char %c in escape", c);
             }
         }
-        else if (iscntrl((int) c))
+        else if ((unsigned char) c < 0x20)
             U_LEXER_ERR(jl, "control character in string", c); 
         else    
             U_LEXER_NEXT(jl, &c);
-- 
2.43.0


From a4e47fa37ba9f4b56a601f7cd9d8e803b65992c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 36/60] fix: json: checked values must match completely, and do
 not leak the lexer

---
 srcs/toolbox/json.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 5c0e866..8556380 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -407,17 +407,20 @@ int u_json_set_val_ex (u_json_t *jo, const char *val, char check)
     switch (jo->type)
     {
         case U_JSON_TYPE_STRING:
-            dbg_err_if (check && u_json_match_string(vl, NULL));
+            dbg_err_if (check && 
+                    (u_json_match_string(vl, NULL) || !u_lexer_eot(vl)));
             break;
         case U_JSON_TYPE_NUMBER:
-            dbg_err_if (check && u_json_match_number(vl, NULL));
+            dbg_err_if (check && 
+                    (u_json_match_number(vl, NULL) || !u_lexer_eot(vl)));
             break;
         default:
             /* Non-critical error, just emit some debug info. */
             goto end;
     }
 
-    dbg_return_if (u_strlcpy(jo->val, val, sizeof jo->val), ~0);
+    dbg_err_if (strlen(val) >= sizeof jo->val);
+    (void) u_strlcpy(jo->val, val, sizeof jo->val);
 
     /* Fall through. */       
 end:
-- 
2.43.0


From 25382c7384490068cbaa890e709bbb40a5b76670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 37/60] fix: json: a walk stays inside the given subtree

---
 srcs/toolbox/json.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 8556380..125850d 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -616,6 +616,8 @@ err:
 void u_json_walk (u_json_t *jo, int strategy, size_t l, 
         void (*cb)(u_json_t *, size_t, void *), void *cb_args)
 {
+    u_json_t *chld, *next;
+
     dbg_return_if (strategy != U_JSON_WALK_PREORDER && 
             strategy != U_JSON_WALK_POSTORDER, );
 
@@ -625,11 +627,13 @@ void u_json_walk (u_json_t *jo, int strategy, size_t l,
     if (strategy == U_JSON_WALK_PREORDER && cb)
         cb(jo, l, cb_args);
 
-    /* When recurring into the children branch, increment depth by one. */
-    u_json_walk(TAILQ_FIRST(&jo->children), strategy, l + 1, cb, cb_args);
-
-    /* Siblings are at the same depth as the current node. */
-    u_json_walk(TAILQ_NEXT(jo, siblings), strategy, l, cb, cb_args);
+    /* When recurring into the children branch, increment depth by one.
+     * Fetch the next child in advance, since 'cb' may free the current one. */
+    for (chld = TAILQ_FIRST(&jo->children); chld != NULL; chld = next)
+    {
+        next = TAILQ_NEXT(chld, siblings);
+        u_json_walk(chld, strategy, l + 1, cb, cb_args);
+    }
 
     if (strategy == U_JSON_WALK_POSTORDER && cb)
         cb(jo, l, cb_args);
-- 
2.43.0


From c4af3b264b2fcf92f9bfc43b76a850d721aa5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:01 +0000
Subject: [PATCH 38/60] fix: json: encode empty member names and stay inside
 the given subtree

---
 srcs/toolbox/json.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 125850d..9515714 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -84,7 +84,7 @@ static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_index (u_json_t *jo, size_t l, void *map);
 
 /* Encode/Decode/Validate. */
-static int u_json_do_encode (u_json_t *jo, u_string_t *s);
+static int u_json_do_encode (u_json_t *jo, int top, u_string_t *s);
 static int u_json_do_parse (const char *json, u_json_t **pjo, 
         char status[U_LEXER_ERR_SZ]);
 
@@ -589,7 +589,7 @@ int u_json_encode (u_json_t *jo, char **ps)
     dbg_return_if (ps == NULL, ~0);
 
     dbg_err_if (u_string_create(NULL, 0, &s));
-    dbg_err_if (u_json_do_encode(jo, s));
+    dbg_err_if (u_json_do_encode(jo, 1, s));
     *ps = u_string_detach_cstr(s);
 
     return 0;
@@ -1141,13 +1141,13 @@ u_json_t *u_json_it_prev (u_json_it_t *it)
  *  \}
  */ 
 
-static int u_json_do_encode (u_json_t *jo, u_string_t *s)
+static int u_json_do_encode (u_json_t *jo, int top, u_string_t *s)
 {
-    if (jo == NULL)
-        return 0;
+    u_json_t *chld;
 
-    /* Optional key. */
-    if (strlen(jo->key))
+    /* Members of an object are introduced by their key (which may be empty),
+     * unless 'jo' is the node from which encoding has been started. */
+    if (!top && jo->parent && jo->parent->type == U_JSON_TYPE_OBJECT)
         dbg_err_if (u_string_aprintf(s, "\"%s\": ", jo->key));
 
     /* Value. */
@@ -1178,8 +1178,14 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             dbg_err("!");
     }
 
-    /* Explore depth. */
-    dbg_err_if (u_json_do_encode(TAILQ_FIRST(&jo->children), s));
+    /* Explore depth, adding a comma to separate siblings when needed. */
+    TAILQ_FOREACH (chld, &jo->children, siblings)
+    {
+        dbg_err_if (u_json_do_encode(chld, 0, s));
+
+        if (TAILQ_NEXT(chld, siblings))
+            dbg_err_if (u_string_aprintf(s, ", "));
+    }
 
     /* Close matching paren. */
     switch (jo->type)
@@ -1194,13 +1200,6 @@ static int u_json_do_encode (u_json_t *jo, u_string_t *s)
             break;
     }
 
-    /* When needed, add comma to separate siblings. */
-    if (TAILQ_NEXT(jo, siblings))
-        dbg_err_if (u_string_aprintf(s, ", "));
-
-    /* Explore horizontally. */
-    dbg_err_if (u_json_do_encode(TAILQ_NEXT(jo, siblings), s));
-
     return 0;
 err:
     return ~0;
-- 
2.43.0


From 780aa5301539f85d710743959da7adfef9accc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:02 +0000
Subject: [PATCH 39/60] fix: json: indexing names nested array elements right,
 reports failures and can be undone

---
 srcs/toolbox/json.c | 68 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 9515714..890c650 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -38,6 +38,13 @@ struct u_json_s
     u_hmap_t *map;              /* Alias reference to the global cache. */
 };
 
+/* What is needed to cache a tree, and how it went. */
+struct u_json_index_s
+{
+    u_hmap_t *map;
+    int rc;
+};
+
 /* Pointer to the name part of .fqn */
 #define U_JSON_OBJ_NAME(jo) \
         ((jo->parent != NULL) ? jo->fqn + strlen(p->fqn) : jo->fqn)
@@ -81,7 +88,8 @@ static const char *u_json_type_str (int type);
 /* Objects misc stuff. */
 static void u_json_do_print (u_json_t *jo, size_t l, void *opaque);
 static void u_json_do_free (u_json_t *jo, size_t l, void *opaque);
-static void u_json_do_index (u_json_t *jo, size_t l, void *map);
+static void u_json_do_index (u_json_t *jo, size_t l, void *opaque);
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque);
 
 /* Encode/Decode/Validate. */
 static int u_json_do_encode (u_json_t *jo, int top, u_string_t *s);
@@ -676,9 +684,9 @@ void u_json_print (u_json_t *jo)
  */
 int u_json_index (u_json_t *jo)
 {
-    size_t u;   /* Unused. */
     u_hmap_opts_t *opts = NULL;
     u_hmap_t *hmap = NULL;
+    struct u_json_index_s idx;
 
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map, 0);     /* If already cached, return ok. */
@@ -695,7 +703,12 @@ int u_json_index (u_json_t *jo)
     jo->icur = 0;
 
     /* Walk the tree in pre-order and cache each node while we traverse. */
-    u_json_walk(jo, U_JSON_WALK_PREORDER, u, u_json_do_index, hmap);
+    idx.map = hmap;
+    idx.rc = 0;
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_index, &idx);
+
+    /* Some node could not be cached. */
+    dbg_err_if (idx.rc);
 
     /* Attach the associative array to the top level object. */
     jo->map = hmap, hmap = NULL;
@@ -705,7 +718,10 @@ err:
     if (opts)
         u_hmap_opts_free(opts);
     if (hmap)
+    {
+        u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
         u_hmap_easy_free(hmap);
+    }
     return ~0;
 }
 
@@ -725,8 +741,12 @@ int u_json_unindex (u_json_t *jo)
     dbg_return_if (jo == NULL, ~0);
     nop_return_if (jo->map == NULL, 0);
 
+    /* The cache belongs to the top level object, other nodes just refer it. */
+    while (jo->parent)
+        jo = jo->parent;
+
     u_hmap_easy_free(jo->map);
-    jo->map = NULL;
+    u_json_walk(jo, U_JSON_WALK_PREORDER, 0, u_json_do_unindex, NULL);
 
     return 0;
 }
@@ -1803,13 +1823,17 @@ static void u_json_do_print (u_json_t *jo, size_t l, void *opaque)
     return;
 }
 
-static void u_json_do_index (u_json_t *jo, size_t l, void *map)
+static void u_json_do_index (u_json_t *jo, size_t l, void *opaque)
 {
+    int rc = 0;
     u_json_t *p;
-    u_hmap_t *hmap = (u_hmap_t *) map;
+    struct u_json_index_s *idx = (struct u_json_index_s *) opaque;
 
     u_unused_args(l);
 
+    /* Initialize the counter used to name the children of an array. */
+    jo->icur = 0;
+
     if ((p = jo->parent) == NULL)
     {
         /* Root node is named '.', its name and fully qualified name match. */
@@ -1818,30 +1842,33 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     else if (p->type == U_JSON_TYPE_OBJECT)
     {
         /* Nodes in object containers are named after their key. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key));
+        rc = u_snprintf(jo->fqn, sizeof jo->fqn, "%s.%s", p->fqn, jo->key);
     }
     else if (p->type == U_JSON_TYPE_ARRAY)
     {
         /* Nodes in array containers are named after their ordinal position. */
-        dbg_if (u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur));
+        rc = u_snprintf(jo->fqn, sizeof jo->fqn, "%s[%u]", p->fqn, p->icur);
 
         /* Increment the counting index in the parent array. */
         p->icur += 1;
-
-        /* In case we have an array inside another array, initialize the 
-         * counter for later recursive invocation. */
-        if (jo->type == U_JSON_TYPE_ARRAY)
-            jo->icur = 0;
     }
     else
         u_warn("Expecting an object, an array, or a top-level node.");
 
-    /* Insert node into the hmap. */
-    dbg_if (u_hmap_easy_put(hmap, jo->fqn, (const void *) jo));
+    /* Insert node into the hmap (in case of duplicate keys first wins). */
+    if (rc == 0)
+    {
+        rc = u_hmap_easy_put(idx->map, jo->fqn, (const void *) jo);
+        if (rc == U_HMAP_ERR_EXISTS)
+            rc = 0;
+    }
+
+    if (rc)
+        idx->rc = ~0;
 
     /* Stick the map pointer inside each visited node, so that it can
      * be readily referenced on retrieval. */
-    jo->map = map;
+    jo->map = idx->map;
 
 #ifdef U_JSON_IDX_DEBUG
     u_con("%p => %s (%s) = %s", jo, jo->fqn, U_JSON_OBJ_NAME(jo), jo->val);
@@ -1850,6 +1877,15 @@ static void u_json_do_index (u_json_t *jo, size_t l, void *map)
     return;
 }
 
+static void u_json_do_unindex (u_json_t *jo, size_t l, void *opaque)
+{
+    u_unused_args(l, opaque);
+
+    jo->map = NULL;
+
+    return;
+}
+
 static int u_json_new_container (u_json_type_t type, const char *key, 
         u_json_t **pjo)
 {
-- 
2.43.0


From f3b5838f144def910987e89472eeaab5411a2d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 40/60] fix: bst: copied keys and values belong to the tree,
 pointers do not

---
 srcs/toolbox/bst.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index b30a8c4..1481f8e 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -142,6 +142,7 @@ int u_bst_new (int opts, u_bst_t **pbst)
     warn_return_sif ((bst = u_malloc(sizeof *bst)) == NULL, ~0);
 
     bst->keytype = U_BST_TYPE_STRING;
+    bst->keysize = bst->valsize = 0;
     bst->keyfree = u_bst_genfree;
     bst->valtype = U_BST_TYPE_PTR;
     bst->valfree = NULL;
@@ -405,8 +406,11 @@ int u_bst_set_keyattr (u_bst_t *bst, u_bst_type_t kt, size_t ks)
     bst->keytype = kt;
     bst->keysize = ks;
 
-    if (kt == U_BST_TYPE_OPAQUE)
+    /* Copied keys belong to the BST, pointers to the user. */
+    if (kt != U_BST_TYPE_PTR)
         bst->keyfree = u_bst_genfree;
+    else if (bst->keyfree == u_bst_genfree)
+        bst->keyfree = NULL;
 
     return 0;
 }
@@ -432,8 +436,11 @@ int u_bst_set_valattr (u_bst_t *bst, u_bst_type_t vt, size_t vs)
     bst->valtype = vt;
     bst->valsize = vs;
 
-    if (vt == U_BST_TYPE_OPAQUE)
+    /* Copied values belong to the BST, pointers to the user. */
+    if (vt != U_BST_TYPE_PTR)
         bst->valfree = u_bst_genfree;
+    else if (bst->valfree == u_bst_genfree)
+        bst->valfree = NULL;
 
     return 0;
 }
-- 
2.43.0


From b2337447e61e905943f7c00d6fb3dd724315c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 41/60] fix: bst: element counts after a deletion

---
 srcs/toolbox/bst.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 1481f8e..15b46ab 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -862,6 +862,7 @@ static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r)
 
     /* Let the left subtree become the left child of the new root. */
     r->left = l;
+    r->nelem += (l ? l->nelem : 0);
 
     return r;
 }
@@ -891,9 +892,7 @@ static u_bst_node_t *u_bst_node_delete (u_bst_t *bst, u_bst_node_t *node,
         u_bst_node_do_free(bst, delnode);
         *pfound = 1;
     }
-
-    /* Update child nodes' counter. */
-    if (node && *pfound)
+    else if (*pfound)   /* Update child nodes' counter. */
         node->nelem -= 1;
 
     return node;
-- 
2.43.0


From 4c14f21a4a393218d1af702ff6e12ce97824d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 42/60] fix: bst: a failed push leaves the tree as it was

---
 srcs/toolbox/bst.c | 111 ++++++++++++++++-----------------------------
 1 file changed, 40 insertions(+), 71 deletions(-)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 15b46ab..748bea4 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -38,14 +38,14 @@ static u_bst_node_t *u_bst_node_search (u_bst_node_t *node, const void *key,
         int (*cmp)(const void *, const void *));
 static void u_bst_node_foreach (u_bst_node_t *node, 
         void (*cb)(u_bst_node_t *, void *), void *cb_args);
-static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val);
+static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node,
+        u_bst_node_t *newnode);
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node,
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val);
+        u_bst_node_t *newnode);
 static u_bst_node_t *u_bst_node_find_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n);
 static u_bst_node_t *u_bst_node_join_lr (u_bst_node_t *l, u_bst_node_t *r);
@@ -201,17 +201,22 @@ void u_bst_free (u_bst_t *bst)
  */
 int u_bst_push (u_bst_t *bst, const void *key, const void *val)
 {
+    u_bst_node_t *newnode = NULL;
+
     dbg_return_if (bst == NULL, ~0);
     dbg_return_if (key == NULL, ~0);
 
+    /* Create the node in advance: in case of failure the tree is unchanged. */
+    warn_return_if (u_bst_node_new(bst, key, val, &newnode), ~0);
+
     if (bst->opts & U_BST_OPT_RANDOMIZED)
-        bst->root = u_bst_node_push_rand(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_rand(bst, bst->root, newnode);
     else if (bst->opts & U_BST_OPT_PUSH_TOP)
-        bst->root = u_bst_node_push_top(bst, bst->root, key, val);
+        bst->root = u_bst_node_push_top(bst, bst->root, newnode);
     else /* The default is bottom insertion. */
-        bst->root = u_bst_node_push_bottom(bst, key, val);
+        bst->root = u_bst_node_push_bottom(bst, newnode);
 
-    return bst->root ? 0 : ~0;
+    return 0;
 }
 
 /**
@@ -701,76 +706,55 @@ static void u_bst_node_foreach (u_bst_node_t *node,
 }
 
 static u_bst_node_t *u_bst_node_push_rand (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
     /* The new node is inserted on the top with 1/nelem+1 probability. */
     if ((size_t) rand() < RAND_MAX / (node->nelem + 1))
-        return u_bst_node_push_top(bst, node, key, val);
+        return u_bst_node_push_top(bst, node, newnode);
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &node));
-        return node;
-    }
+        return newnode;
 
-    if (bst->cmp(key, node->key) < 0)
-        node->left = u_bst_node_push(bst, node->left, key, val);
+    if (bst->cmp(newnode->key, node->key) < 0)
+        node->left = u_bst_node_push(bst, node->left, newnode);
     else
-        node->right = u_bst_node_push(bst, node->right, key, val);
+        node->right = u_bst_node_push(bst, node->right, newnode);
 
     node->nelem += 1;
 
     return node;
-err:
-    return NULL;
 }
  
-static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key, 
-        const void *val)
+static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, 
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *parent, *node;
-
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
+    u_bst_node_t *parent = NULL, *node;
 
     /* Empty BST, handle special case. */
     if (u_bst_empty(bst))
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &bst->root));
-        return bst->root;
-    }
+        return newnode;
 
     /* Find a way through the non-empty BST until we reach an external node. */
     for (node = bst->root;
             node != NULL;
-            node = (bst->cmp(key, node->key) < 0) ? node->left : node->right)
+            node = (bst->cmp(newnode->key, node->key) < 0) ? 
+                node->left : node->right)
     {
         /* Save parent reference.  It is needed later, on loop exhaustion, to 
          * fix left/child links of the node to which we attach. */
@@ -780,53 +764,38 @@ static u_bst_node_t *u_bst_node_push_bottom (u_bst_t *bst, const void *key,
         node->nelem += 1;
     }
 
-    /* Create a new node with the supplied (key, val). */
-    warn_err_if (u_bst_node_new(bst, key, val, &node));
-
     /* Choose the subtree to which it belongs. */
-    if (bst->cmp(key, parent->key) < 0)
-        parent->left = node;
+    if (bst->cmp(newnode->key, parent->key) < 0)
+        parent->left = newnode;
     else
-        parent->right = node;
+        parent->right = newnode;
 
     return bst->root;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_push_top (u_bst_t *bst, u_bst_node_t *node, 
-        const void *key, const void *val)
+        u_bst_node_t *newnode)
 {
-    u_bst_node_t *newnode = NULL;
-
-    dbg_return_if (bst == NULL, NULL);
-    dbg_return_if (key == NULL, NULL);
-
-    /* External node reached: create the node. */
+    /* External node reached. */
     if (node == NULL)
-    {
-        warn_err_if (u_bst_node_new(bst, key, val, &newnode));
         return newnode;
-    }
 
     /* Update child counter of the traversed node. */
     node->nelem += 1;
 
     /* Let the created node bubble up through subsequent rotations. */
-    if (bst->cmp(key, node->key) < 0)
+    if (bst->cmp(newnode->key, node->key) < 0)
     {
-        node->left = u_bst_node_push_top(bst, node->left, key, val);
+        node->left = u_bst_node_push_top(bst, node->left, newnode);
         node = u_bst_rotate(node, U_BST_ROT_RIGHT);
     }
     else
     {
-        node->right = u_bst_node_push_top(bst, node->right, key, val);
+        node->right = u_bst_node_push_top(bst, node->right, newnode);
         node = u_bst_rotate(node, U_BST_ROT_LEFT);
     }
     
     return node;
-err:
-    return NULL;
 }
 
 static u_bst_node_t *u_bst_node_promote_nth (u_bst_node_t *node, size_t n)
-- 
2.43.0


From 7ab62ee5196ae31badac6be40777185d8e1a327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 43/60] fix: config: read lines of any length and an
 unterminated last line

---
 srcs/toolbox/config.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index bf84372..49bfc2d 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1087,14 +1087,17 @@ static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln)
         len = strlen(buf);
         if(len == 0)
             break; /* empty line */
+        if(buf[len - 1] != '\n')
+        {   /* line's longer the bufsz (or eof);get next line chunk */
+            dbg_err_if(u_string_append(ln, buf, len));
+            continue; 
+        }
         dbg_err_if(u_string_append(ln, buf, --len));
-        if(!u_isnl(buf[len]))
-            continue; /* line's longer the bufsz (or eof);get next line chunk */
-        else
-            break;
+        break;
     }
 
-    nop_err_if(p == NULL); /* eof */
+    /* eof (the last line may not be newline-terminated) */
+    nop_return_if(p == NULL && u_string_len(ln) == 0, 1); 
 
     return 0;
 err:
-- 
2.43.0


From 0ec7359560355faab9635e76fee4f41407652a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 44/60] fix: config: refuse unmatched braces, stray groups and
 read errors

---
 srcs/toolbox/config.c | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 49bfc2d..ecf0d44 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -46,7 +46,7 @@ static int u_config_do_set_key (u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild);
 static int cs_getline (u_config_gets_t cb, void *arg, u_string_t *ln);
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite);
+        void *arg, int overwrite, int nested);
 static int u_config_include (u_config_t *c, u_config_driver_t *drv, 
         u_config_t *inckey, int overwrite);
 static void u_config_del_key (u_config_t *c, u_config_t *child);
@@ -569,7 +569,7 @@ int u_config_load_from (u_config_t *c, u_config_gets_t cb, void *arg,
 {
     u_config_driver_t drv = { NULL, NULL, cb, NULL };
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &drv, arg, overwrite, 0));
 
     return 0;
 err:
@@ -600,7 +600,7 @@ int u_config_load (u_config_t *c, int fd, int overwrite)
     file = fdopen(dup(fd), "r");
     dbg_err_if(file == NULL);
 
-    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite));
+    dbg_err_if(u_config_do_load_drv(c, &u_config_drv_fs, file, overwrite, 0));
 
     fclose(file);
 
@@ -900,7 +900,7 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     if(drv->open)
         dbg_err_if (drv->open(uri, &arg));
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
         dbg_err_if (drv->close(arg));
@@ -989,7 +989,7 @@ int u_config_load_from_buf (char *buf, size_t len, u_config_t **pc)
 
     dbg_err_if(u_config_create(&c));
 
-    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0));
+    dbg_err_if(u_config_do_load_drv(c, &drv, &arg, 0, 0));
 
     *pc = c;
 
@@ -1105,13 +1105,13 @@ err:
 }
 
 static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv, 
-        void *arg, int overwrite)
+        void *arg, int overwrite, int nested)
 {
     enum { MAX_NEST_LEV = 20 };
     u_string_t *line = NULL, *key = NULL, *lastkey = NULL, *value = NULL;
     const char *ln, *p;
     size_t len;
-    int lineno = 1;
+    int rc, lineno = 1, closed = 0;
     u_config_t *child = NULL;
     u_config_t *subkey;
 
@@ -1122,7 +1122,8 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
 
     dbg_err_if(drv->gets == NULL);
 
-    for(; cs_getline(drv->gets, arg, line) == 0; u_string_clear(line), ++lineno)
+    for(; (rc = cs_getline(drv->gets, arg, line)) == 0; 
+            u_string_clear(line), ++lineno)
     {
         dbg_err_if (u_config_remove_comment(line));
 
@@ -1158,16 +1159,17 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
                 dbg_err_if(u_config_add_child(c, u_string_c(lastkey), &child));
             }
 
-            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite));
+            dbg_err_if(u_config_do_load_drv(child, drv, arg, overwrite, 1));
 
             dbg_err_if(u_string_clear(lastkey));
 
             continue;
         } else if(ln[0] == '}') {
-            crit_err_ifm(c->parent == NULL,"config error: unmatched '}'");
+            crit_err_ifm(!nested,"config error: unmatched '}'");
             if(!u_isblank_str(++ln))
                 dbg_err("config error [line %d]: { or } must be the "
                          "only not-blank char in a line", lineno);
+            closed = 1;
             break; /* exit */
         }
 
@@ -1204,12 +1206,19 @@ static int u_config_do_load_drv (u_config_t *c, u_config_driver_t *drv,
             continue;
         }
 
+        /* a group must immediately follow its name */
+        dbg_err_if(u_string_clear(lastkey));
+
         /* add to the var list */
         dbg_err_if(u_config_do_set_key(c, 
                         u_string_c(key), 
                         u_string_len(value) ? u_string_c(value) : NULL, 
                         overwrite, NULL));
     }
+
+    dbg_err_if(rc == ~0);   /* not the eof */
+
+    crit_err_ifm(nested && !closed,"config error: unmatched '{'");
     
     u_string_free(lastkey);
     u_string_free(value);
@@ -1268,7 +1277,7 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     crit_err_ifm (drv->open(p, &arg),
         "unable to access input file: %s", p);
 
-    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite));
+    dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
         crit_err_ifm (drv->close(arg),
-- 
2.43.0


From c2ffa934de5fafd3068254e5945637d0b5295e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 45/60] fix: config: comments in lines of any length

---
 srcs/toolbox/config.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index ecf0d44..9c47a38 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1361,11 +1361,11 @@ err:
 
 static int u_config_remove_comment(u_string_t *line)
 {
-    char last, ln[2048], *p;
+    char last, *ln = NULL, *p;
 
     dbg_return_if (line == NULL, ~0);
 
-    dbg_err_if (u_strlcpy(ln, u_string_c(line), sizeof ln));
+    dbg_err_if ((ln = u_strdup(u_string_c(line))) == NULL);
 
     for (last = '\0', p = ln; *p != '\0'; )
     {
@@ -1398,8 +1398,11 @@ static int u_config_remove_comment(u_string_t *line)
 
     dbg_err_if (u_string_set(line, ln, strlen(ln)));
 
+    u_free(ln);
+
     return 0;
 err:
+    U_FREE(ln);
     return ~0;
 }
 
-- 
2.43.0


From 0ef5d37f5c1e61f507386e77be8a39eae25b08e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 46/60] fix: config: a failed assignment keeps the old value

---
 srcs/toolbox/config.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 9c47a38..86506d5 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -445,16 +445,14 @@ int u_config_set_value (u_config_t *c, const char *val)
 {
     u_config_t *root, *ignore;
     const char *varval, *vs, *ve, *p;
+    char *old = NULL;
     u_string_t *var = NULL, *value = NULL;
 
     dbg_err_if(c == NULL);
 
-    /* free() previous value if any */
-    if(c->value)
-    {
-        U_FREE(c->value);
-        c->value = NULL;
-    } 
+    /* detach previous value if any ('val' may refer to it) */
+    old = c->value;
+    c->value = NULL;
 
     if(val)
     {
@@ -483,7 +481,7 @@ int u_config_set_value (u_config_t *c, const char *val)
             /* first see if the variable can be resolved in the local scope
                otherwise resolve it from the root */
             root = c->parent;
-            if(u_config_get_subkey(root, u_string_c(var), &ignore))
+            if(root == NULL || u_config_get_subkey(root, u_string_c(var), &ignore))
                 root = u_config_get_root(c);
             dbg_err_if(root == NULL);
 
@@ -504,8 +502,12 @@ int u_config_set_value (u_config_t *c, const char *val)
         u_string_free(var);
     }
 
+    U_FREE(old);
+
     return 0;
 err:
+    if(old)
+        c->value = old; /* keep the previous value */
     if(value)
         u_string_free(value);
     if(var)
-- 
2.43.0


From b647d670acf8ae948526c8b646a676685443a577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 47/60] fix: config: a failed set leaves no key behind

---
 srcs/toolbox/config.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 86506d5..5378757 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -324,6 +324,8 @@ int u_config_add_child (u_config_t *c, const char *key, u_config_t **pc)
 
     return 0;
 err:
+    if(child)
+        u_config_free(child);
     return ~0;
 }
 
@@ -1049,7 +1051,8 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         int overwrite, u_config_t **pchild)
 {
     u_config_t *child = NULL;
-    char *p, *child_key;
+    char *p, *child_key = NULL;
+    int added = 0;
 
     if((p = strchr(key, '.')) == NULL)
     {
@@ -1057,6 +1060,7 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         if(child == NULL || !overwrite)
         {   /* there's no such child, add a new child */
             dbg_err_if(u_config_add_child(c, key, &child));
+            added = 1;
         } 
         dbg_err_if(u_config_set_value(child, val));
 
@@ -1069,10 +1073,13 @@ static int u_config_do_set_key(u_config_t *c, const char *key, const char *val,
         if((child = u_config_get_child(c, child_key)) == NULL)
             dbg_err_if(u_config_add_child(c, child_key, &child));
         U_FREE(child_key);
-        return u_config_do_set_key(child, ++p, val, overwrite, NULL);
+        return u_config_do_set_key(child, ++p, val, overwrite, pchild);
     }
     return 0;
 err:
+    U_FREE(child_key);
+    if(added)
+        (void) u_config_del_child(c, child);
     return ~0;
 }
 
-- 
2.43.0


From 61c19ec7a948d3ae6515bd6a7f983ffe71b57841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 48/60] fix: config: nth subkey with a dotted path

---
 srcs/toolbox/config.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 5378757..4840e5f 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -389,7 +389,7 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
         u_config_t **pc)
 {
     u_config_t *child = NULL;
-    char *first_key = NULL, *p;
+    const char *p;
 
     if ((p = strchr(subkey, '.')) == NULL)
     {
@@ -401,14 +401,17 @@ int u_config_get_subkey_nth (u_config_t *c, const char *subkey, int n,
     } 
     else 
     {
-        if ((first_key = u_strndup(subkey, p - subkey)) != NULL)
+        size_t len = p - subkey;
+
+        TAILQ_FOREACH (child, &c->children, np)
         {
-            child = u_config_get_child(c, first_key);
-            U_FREE(first_key);
+            if (strncmp(child->key, subkey, len) == 0 && 
+                    child->key[len] == '\0')
+                break;
         }
 
         if (child != NULL)
-            return u_config_get_subkey(child, ++p, pc);
+            return u_config_get_subkey_nth(child, ++p, n, pc);
     }
 
     return ~0; /* not found */
-- 
2.43.0


From c54428b60294dc47698c2d7774d0e5a968e49c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 49/60] fix: config: report failures when saving

---
 srcs/toolbox/config.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index 4840e5f..d49ab73 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -1318,18 +1318,19 @@ static int u_config_to_str (u_config_t *c, u_string_t *s)
     dbg_err_if(s == NULL);
 
     if(c->key && strcmp(c->key, "include"))
-        u_string_aprintf(s, "%s %s\n", c->key, (c->value ? c->value : ""));
+        dbg_err_if(u_string_aprintf(s, "%s %s\n", c->key, 
+                    (c->value ? c->value : "")));
     
     if(u_config_has_children(c))
     {
         if(c->parent)
-            u_string_aprintf(s, "%s", "{\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "{\n"));
 
         TAILQ_FOREACH(item, &c->children, np)
-            u_config_to_str(item, s);
+            dbg_err_if(u_config_to_str(item, s));
 
         if(c->parent)
-            u_string_aprintf(s, "%s", "}\n");
+            dbg_err_if(u_string_aprintf(s, "%s", "}\n"));
     }
 
     return 0;
-- 
2.43.0


From 6c600574fd3deeb20727d1af23557053fc0b478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:10 +0000
Subject: [PATCH 50/60] fix: config: do not close the driver twice

---
 srcs/toolbox/config.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/srcs/toolbox/config.c b/srcs/toolbox/config.c
index d49ab73..1e797f3 100644
--- a/srcs/toolbox/config.c
+++ b/srcs/toolbox/config.c
@@ -910,7 +910,12 @@ int u_config_load_from_drv (const char *uri, u_config_driver_t *drv,
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
-        dbg_err_if (drv->close(arg));
+    {
+        void *a = arg;
+
+        arg = NULL; /* whatever happens, don't close it again */
+        dbg_err_if (drv->close(a));
+    }
 
     *pc = c;
 
@@ -1292,8 +1297,13 @@ static int u_config_include (u_config_t *c, u_config_driver_t *drv,
     dbg_err_if (u_config_do_load_drv(c, drv, arg, overwrite, 0));
 
     if(drv->close)
-        crit_err_ifm (drv->close(arg),
+    {
+        void *a = arg;
+
+        arg = NULL; /* whatever happens, don't close it again */
+        crit_err_ifm (drv->close(a),
             "unable to close input file: %s", p);
+    }
     else
         u_warn("the 'close' driver callback is not defined, not closing...");
 
-- 
2.43.0


From a45488d3f0fe9a8e7966ab2813be0e1fe8ca5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:44 +0000
Subject: [PATCH 51/60] fix: net: u_net_sd_by_addr_ex reports -1 for a missing
 address

---
 srcs/toolbox/net.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ee1f962..038898d 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -277,7 +277,7 @@ err:
  */ 
 int u_net_sd_by_addr_ex (u_net_addr_t *a, struct timeval *timeout)
 {
-    dbg_return_if (a == NULL, ~1);
+    dbg_return_if (a == NULL, -1);
 
     switch (a->mode)
     {
-- 
2.43.0


From 599b7eee3a9e184170ba627ed9bcd2712ef65dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 52/60] fix: net: restore blocking mode after an immediate
 connection, keep errno

---
 srcs/toolbox/net.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 038898d..7b39cbf 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -520,7 +520,8 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
      * instead a rather convoluted select() based machinery must be put in
      * place.  Anyway, since the timeout'ed version shares the same code layout
      * we can kill two birds with one stone... */
-    nop_return_if ((rc = connect(sd, addr, addrlen)) == 0, 0);
+    if ((rc = connect(sd, addr, addrlen)) == 0)
+        goto connected;
     dbg_err_sif (errno != EINTR && errno != EINPROGRESS);
 
     /* "When the connection has been established asynchronously, select() and 
@@ -578,13 +579,18 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
         warn_err("error detected on socket %d: %s", sd, strerror(errno));
     }
 
-    if (timeout)
-        (void) u_net_unset_nonblocking(sd);
+    /* Fall through. */
+connected:
+    if (timeout && u_net_unset_nonblocking(sd))
+        return -1;
 
     return 0;
 err:
+    /* Don't let fcntl() errors obscure the reason of the failure. */
+    rc = errno;
     if (timeout)
         (void) u_net_unset_nonblocking(sd);
+    errno = rc;
 
     return (errno == ETIMEDOUT) ? -2 : -1;
 }
-- 
2.43.0


From 28ff92712e07f5a072d8ec8f61e9ac2abd92e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 53/60] fix: net: no FD_SET beyond FD_SETSIZE while connecting

---
 srcs/toolbox/net.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 7b39cbf..53ed76a 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -527,6 +527,11 @@ int u_connect_ex (int sd, const struct sockaddr *addr, u_socklen_t addrlen,
     /* "When the connection has been established asynchronously, select() and 
      *  poll() shall indicate that the file descriptor for the socket is ready 
      *  for writing." */
+    if (sd >= FD_SETSIZE)
+    {
+        errno = EINVAL;
+        dbg_err("can't wait for socket %d: FD_SETSIZE exceeded", sd);
+    }
     FD_ZERO(&writefds);
     FD_SET(sd, &writefds);
 
-- 
2.43.0


From c56716d3fdfcef6c26e20bec00254010fc8113fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 54/60] fix: net: uninitialised SCTP event mask

---
 srcs/toolbox/net.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 53ed76a..ceea345 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -980,6 +980,8 @@ static int sctp_enable_events (int s, int o)
 {
     struct sctp_event_subscribe e;
 
+    memset(&e, 0, sizeof e);
+
     e.sctp_data_io_event = 
         (o & U_NET_OPT_SCTP_DATA_IO_EVENT) ? 1 : 0;
 
-- 
2.43.0


From 86b32cd57abf8a579272b6308c9f437fd8f27c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 55/60] fix: net: double free of a unix address when memory
 runs out

---
 srcs/toolbox/net.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index ceea345..2f5874c 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1172,15 +1172,15 @@ static int resolv_sun (const char *dummy1, const char *dummy2,
     dbg_err_ifm (u_strlcpy(sunix->sun_path, path, sizeof sunix->sun_path), 
             "%s too long", path);
 
+    /* set cname to what was provided as 'path' by the caller */
+    dbg_err_sif ((cname = u_strdup(path)) == NULL);
+    ai->ai_canonname = cname;
+
     ai->ai_protocol = 0;    /* override previous setting if any */
     ai->ai_addr = (struct sockaddr *) sunix;
     ai->ai_addrlen = sizeof *sunix;
     ai->ai_next = NULL;
 
-    /* set cname to what was provided as 'path' by the caller */
-    dbg_err_sif ((cname = u_strdup(path)) == NULL);
-    ai->ai_canonname = cname;
-
     return 0;
 err:
     U_FREE(sunix);
-- 
2.43.0


From 7f579ceb5ead9e8c9050a4dffe6f01d2400d86cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 56/60] fix: net: refuse ports out of range, wildcard port is 0

---
 srcs/toolbox/net.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/net.c b/srcs/toolbox/net.c
index 2f5874c..6534c2e 100644
--- a/srcs/toolbox/net.c
+++ b/srcs/toolbox/net.c
@@ -1237,7 +1237,12 @@ static int ai_resolv (const char *host, const char *port, const char *path,
      * Handle '*' for both host and port.
      */
     hostname = !strcmp(host, "*") ? NULL : host;
-    servname = !strcmp(port, "*") ? NULL : port;
+    servname = !strcmp(port, "*") ? "0" : port;
+
+    /* getaddrinfo() may silently truncate out of range port numbers. */
+    if (strspn(servname, "0123456789") == strlen(servname))
+        dbg_err_ifm (strtoul(servname, NULL, 10) > 65535, 
+                "port %s out of range", servname);
 
     memset(&hints, 0, sizeof hints);
 
-- 
2.43.0


From 4fe53c8c620c0464def833851ceb27a72b3fce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:45 +0000
Subject: [PATCH 57/60] fix: uri: accept the wildcard port of the net module

---
 srcs/toolbox/uri.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/uri.c b/srcs/toolbox/uri.c
index 8dfa915..e67a354 100644
--- a/srcs/toolbox/uri.c
+++ b/srcs/toolbox/uri.c
@@ -482,8 +482,14 @@ static int u_uri_parse_port (u_lexer_t *l, u_uri_t *u)
 
     u_lexer_record_lmatch(l);
 
-    while (isalnum((int) c) || c == '_' || c == '-' || c == '.')
+    /* A single '*' is the wildcard port of the net module. */
+    if (c == '*')
         U_LEXER_NEXT(l, &c);
+    else
+    {
+        while (isalnum((int) c) || c == '_' || c == '-' || c == '.')
+            U_LEXER_NEXT(l, &c);
+    }
 
     u_lexer_record_rmatch(l);
     warn_err_if (u_uri_adjust_greedy_match(l, u->port));
-- 
2.43.0


From 1d7ab5c1af61915e273e4b6507c5fb507fc81f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:39 +0000
Subject: [PATCH 58/60] fix: pwd: a snapshot is complete or not used at all

---
 srcs/toolbox/pwd.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/srcs/toolbox/pwd.c b/srcs/toolbox/pwd.c
index e6fee72..4c92c0a 100644
--- a/srcs/toolbox/pwd.c
+++ b/srcs/toolbox/pwd.c
@@ -667,6 +667,7 @@ static int u_pwd_db_term (u_pwd_t *pwd)
 
 static int u_pwd_db_load (u_pwd_t *pwd)
 {
+    int rc;
     size_t lc, ntoks;
     char ln[U_PWD_LINE_MAX];
     char **toks = NULL;  /* line fmt is: "name:password[:hint]\n" */
@@ -696,25 +697,25 @@ static int u_pwd_db_load (u_pwd_t *pwd)
         ln[strcspn(ln, "\n")] = '\0';
 
         /* tokenize line */
-        dbg_ifb (u_strtok(ln, ":", &toks, &ntoks) || ntoks < 2)
+        dbg_err_if (u_strtok(ln, ":", &toks, &ntoks));
+
+        dbg_ifb (ntoks < 2)
         {
             u_info("bad syntax at line %zu (%s)", lc, ln);
             continue;
         }
 
         /* create u_pwd_rec_t from tokens */
-        dbg_ifb (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
-                    &rec))
-        {
-            u_info("could not create record for entry at line %zu", lc);
-            continue;
-        }
+        dbg_err_if (u_pwd_rec_new(toks[0], toks[1], ntoks < 3 ? NULL : toks[2], 
+                    &rec));
 
         /* push rec to db (which owns it from now on, whatever the outcome) */
-        dbg_ifb (u_pwd_db_push(pwd, rec))
-            u_info("could not push record for entry at line %zu", lc);
-
+        rc = u_pwd_db_push(pwd, rec);
         rec = NULL;
+
+        /* an incomplete snapshot is of no use */
+        dbg_err_ifm (rc == U_HMAP_ERR_FAIL, 
+                "could not push record for entry at line %zu", lc);
     }
 
     if (toks)
-- 
2.43.0


From f231266a781845cc78f996b910b1805269812142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:18 +0000
Subject: [PATCH 59/60] fix: json: no lexer, no lexer message: do not crash
 validating without memory

---
 srcs/toolbox/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/srcs/toolbox/json.c b/srcs/toolbox/json.c
index 890c650..7d07211 100644
--- a/srcs/toolbox/json.c
+++ b/srcs/toolbox/json.c
@@ -1985,7 +1985,8 @@ static int u_json_do_parse (const char *json, u_json_t **pjo,
 err:
     /* Copy out the lexer error string (if requested). */
     if (status)
-        (void) u_strlcpy(status, u_lexer_geterr(jl), U_LEXER_ERR_SZ);
+        (void) u_strlcpy(status, jl ? u_lexer_geterr(jl) : "out of memory", 
+                U_LEXER_ERR_SZ);
 
     u_lexer_free(jl);
     u_json_free(jo);
-- 
2.43.0


From b696f67c6b7bd3d5df09f564ca9e32123bab5d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:08 +0000
Subject: [PATCH 60/60] fix: a failed u_bst_push() leaves a key passed by
 reference to the caller

---
 srcs/toolbox/bst.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/srcs/toolbox/bst.c b/srcs/toolbox/bst.c
index 748bea4..e2c3b0b 100644
--- a/srcs/toolbox/bst.c
+++ b/srcs/toolbox/bst.c
@@ -602,6 +602,9 @@ static int u_bst_node_new (u_bst_t *bst, const void *key, const void *val,
 
     return 0;
 err:
+    /* A key passed by reference still belongs to the caller. */
+    if (node && bst->keytype == U_BST_TYPE_PTR)
+        node->key = NULL;
     u_bst_node_do_free(bst, node);
     return ~0;
 }
-- 
2.43.0

