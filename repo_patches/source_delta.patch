From 57939541bc7c164880b6dc9ecd090e0aed733ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:59 +0000
Subject: [PATCH 01/14] fix: report signatures truncated inside a weak sum

Loading a signature whose last 1-3 bytes are a partial weak sum returned
RS_DONE as if the signature was complete. Only accept the end of input
between two blocks.
---
 src/readsums.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index 61ba84a..dc0f259 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -57,7 +57,8 @@ static rs_result rs_loadsig_s_weak(rs_job_t *job)
     rs_result result;
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE) {
-        if (result == RS_INPUT_ENDED)   /* ending here is OK */
+        /* Ending here is OK, but not part way through the weak sum. */
+        if (result == RS_INPUT_ENDED && rs_scoop_eof(job))
             return RS_DONE;
         return result;
     }
-- 
2.43.0


From c194d10c7b63df5b3f6501d6e0f7df2eca5eb033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:00 +0000
Subject: [PATCH 02/14] fix: reject signatures with a zero strong sum length

A zero strong sum length in a signature header was treated as a request for
the default length when initializing the signature, so the blocks following
the header were parsed with a length the file never specified.
---
 src/readsums.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/readsums.c b/src/readsums.c
index dc0f259..ddede9c 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -87,7 +87,7 @@ static rs_result rs_loadsig_s_stronglen(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
-    if (l < 0 || l > RS_MAX_STRONG_SUM_LENGTH) {
+    if (l < 1 || l > RS_MAX_STRONG_SUM_LENGTH) {
         rs_error("strong sum length %d is implausible", l);
         return RS_CORRUPT;
     }
-- 
2.43.0


From a5fb96d81707ebca661972bc980ac59c3ca8d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:00 +0000
Subject: [PATCH 03/14] fix: reject signatures with a zero magic number

A zero magic in a signature header was treated as a request for the default
magic, so any stream starting with four zero bytes was accepted as a
RK_BLAKE2 signature.
---
 src/readsums.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/readsums.c b/src/readsums.c
index ddede9c..0914450 100644
--- a/src/readsums.c
+++ b/src/readsums.c
@@ -127,6 +127,11 @@ static rs_result rs_loadsig_s_magic(rs_job_t *job)
 
     if ((result = rs_suck_n4(job, &l)) != RS_DONE)
         return result;
+    /* Zero would be taken as a request for the default magic. */
+    if (l == 0) {
+        rs_error("invalid magic %#x", l);
+        return RS_BAD_MAGIC;
+    }
     rs_trace("got signature magic %#x", l);
     job->sig_magic = l;
     job->statefn = rs_loadsig_s_blocklen;
-- 
2.43.0


From fe2fda7d019c5250fa23e67a23f8f99b7f8e04b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:34 +0000
Subject: [PATCH 04/14] fix: split slack delta literals that do not fit an int

---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index de65a8c..dbbe35b 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -90,6 +90,7 @@
 
 #include "config.h"             /* IWYU pragma: keep */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "librsync.h"
 #include "job.h"
@@ -368,6 +369,9 @@ static rs_result rs_delta_s_slack(rs_job_t *job)
 {
     size_t avail = rs_scoop_avail(job);
 
+    /* a literal command takes an int length, so do at most that at a time */
+    if (avail > INT_MAX)
+        avail = INT_MAX;
     if (avail) {
         rs_trace("emit slack delta for " FMT_SIZE " available bytes", avail);
         rs_emit_literal_cmd(job, (int)avail);
-- 
2.43.0


From 3e6cd1ec94bc28d1251ee77b402bb4641fdc6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:13 +0000
Subject: [PATCH 05/14] fix: describe RS_PARAM_ERROR and RS_TEST_SKIPPED in
 rs_strerror

rs_strerror() gave both public result codes the generic "unexplained
problem" text meant for unknown codes.
---
 src/msg.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/msg.c b/src/msg.c
index 1d9e1f5..1d6920e 100644
--- a/src/msg.c
+++ b/src/msg.c
@@ -68,6 +68,10 @@ char const *rs_strerror(rs_result r)
         return "bad command line syntax";
     case RS_INTERNAL_ERROR:
         return "library internal error";
+    case RS_PARAM_ERROR:
+        return "bad parameter passed to library";
+    case RS_TEST_SKIPPED:
+        return "test neither passed nor failed";
 
     default:
         return "unexplained problem";
-- 
2.43.0


From 84f5e2d42b56042842464dca963ec0f0a2623951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:39 +0000
Subject: [PATCH 06/14] fix: do not write past a small buffer in
 rs_format_stats

snprintf() returns the length of the whole text, so after a truncation
'size - len' wrapped round and later pieces were written beyond the
buffer given by the caller.
---
 src/stats.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/stats.c b/src/stats.c
index 5fabb8d..595681e 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -37,6 +37,14 @@ int rs_log_stats(rs_stats_t const *stats)
     return 0;
 }
 
+/** Limit the length snprintf() wanted to what it could store in the buffer. */
+static int rs_stored_len(int len, size_t size)
+{
+    if ((size_t)len < size)
+        return len;
+    return size ? (int)(size - 1) : 0;
+}
+
 char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
 {
     char const *op = stats->op;
@@ -47,6 +55,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
         op = "noop";
 
     len = snprintf(buf, size, "%s statistics: ", op);
+    len = rs_stored_len(len, size);
 
     if (stats->lit_cmds) {
         len +=
@@ -54,6 +63,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      "literal[%d cmds, " FMT_LONG " bytes, " FMT_LONG
                      " cmdbytes] ", stats->lit_cmds, stats->lit_bytes,
                      stats->lit_cmdbytes);
+        len = rs_stored_len(len, size);
     }
 
     if (stats->sig_cmds) {
@@ -61,6 +71,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "in-place-signature[" FMT_LONG " cmds, " FMT_LONG
                      " bytes] ", stats->sig_cmds, stats->sig_bytes);
+        len = rs_stored_len(len, size);
     }
 
     if (stats->copy_cmds || stats->false_matches) {
@@ -70,6 +81,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
                      " cmdbytes, %d false]", stats->copy_cmds,
                      stats->copy_bytes, stats->copy_cmdbytes,
                      stats->false_matches);
+        len = rs_stored_len(len, size);
     }
 
     if (stats->sig_blocks) {
@@ -77,6 +89,7 @@ char *rs_format_stats(rs_stats_t const *stats, char *buf, size_t size)
             snprintf(buf + len, size - (size_t)len,
                      "signature[" FMT_LONG " blocks, " FMT_SIZE
                      " bytes per block]", stats->sig_blocks, stats->block_len);
+        len = rs_stored_len(len, size);
     }
 
     sec = (int)(stats->end - stats->start);
-- 
2.43.0


From 1b3d2e5f83f25ebc4ff0210f3de4ae8e6cdca5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:39 +0000
Subject: [PATCH 07/14] fix: do not overwrite an existing unreadable file
 without --force

rs_file_open() took a failure to open the output file for reading as
proof that it does not exist, so a file without read permission was
overwritten.
---
 src/fileutil.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fileutil.c b/src/fileutil.c
index 676d2d0..85fe221 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -105,6 +105,11 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
             rs_error("File exists \"%s\", aborting!", filename);
             fclose(f);
             exit(RS_IO_ERROR);
+        } else if (errno != ENOENT) {
+            // File may exist without being readable
+            rs_error("Error checking \"%s\" does not exist: %s", filename,
+                     strerror(errno));
+            exit(RS_IO_ERROR);
         }
     }
 
-- 
2.43.0


From 8f309c129a4625a9ed6c8788a07f450afcd1cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:04 +0000
Subject: [PATCH 08/14] fix: report rdiff output that could not be written at
 close

rdiff ignored the result of closing its output and never flushed
standard output, so it exited with status 0 after a full disk had lost
data still held in stdio buffers.
---
 src/fileutil.c | 4 +++-
 src/rdiff.c    | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/fileutil.c b/src/fileutil.c
index 85fe221..317fcbf 100644
--- a/src/fileutil.c
+++ b/src/fileutil.c
@@ -124,8 +124,10 @@ FILE *rs_file_open(char const *filename, char const *mode, int force)
 
 int rs_file_close(FILE *f)
 {
-    if ((f == stdin) || (f == stdout))
+    if (f == stdin)
         return 0;
+    if (f == stdout)
+        return fflush(f);
     return fclose(f);
 }
 
diff --git a/src/rdiff.c b/src/rdiff.c
index 29ca892..5175215 100644
--- a/src/rdiff.c
+++ b/src/rdiff.c
@@ -223,7 +223,8 @@ static rs_result rdiff_sig(poptContext opcon)
         rs_sig_file(basis_file, sig_file, block_len, strong_len, sig_magic,
                     &stats);
 
-    rs_file_close(sig_file);
+    if (rs_file_close(sig_file) && result == RS_DONE)
+        result = RS_IO_ERROR;
     rs_file_close(basis_file);
     if (result != RS_DONE)
         return result;
@@ -266,7 +267,8 @@ static rs_result rdiff_delta(poptContext opcon)
 
     result = rs_delta_file(sumset, new_file, delta_file, &stats);
 
-    rs_file_close(delta_file);
+    if (rs_file_close(delta_file) && result == RS_DONE)
+        result = RS_IO_ERROR;
     rs_file_close(new_file);
     rs_file_close(sig_file);
 
@@ -302,7 +304,8 @@ static rs_result rdiff_patch(poptContext opcon)
 
     result = rs_patch_file(basis_file, delta_file, new_file, &stats);
 
-    rs_file_close(new_file);
+    if (rs_file_close(new_file) && result == RS_DONE)
+        result = RS_IO_ERROR;
     rs_file_close(delta_file);
     rs_file_close(basis_file);
 
-- 
2.43.0


From b5109c9b323d049dcade406280b6bd22c64d6123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:41 +0000
Subject: [PATCH 09/14] fix: reject block lengths that do not fit an int in
 rs_sig_args

Block lengths are held in an int, so a larger one (such as the one
"rdiff -b -5" asks for) turned negative: signature generation then never
ended, or asked for a huge buffer and aborted.
---
 src/sumset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 5a87261..73f2358 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -21,6 +21,7 @@
  */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdlib.h>
 #include <string.h>
 #include "librsync.h"
@@ -146,6 +147,10 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
     }
     if (*block_len == 0)
         *block_len = rec_block_len;
+    if (*block_len > INT_MAX) {
+        rs_error("invalid block_len=" FMT_SIZE, *block_len);
+        return RS_PARAM_ERROR;
+    }
     /* The recommended strong_len assumes the worst case new_fsize = old_fsize
        + 16MB with no matches. This results in comparing a block at every byte
        offset against all the blocks in the signature, or new_fsize*block_num
-- 
2.43.0


From 18f3888e13e6f0f6b5eb292e713f1d3507f38e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:41 +0000
Subject: [PATCH 10/14] fix: never choose or accept a strong_len above the
 maximum

For huge files with small blocks the recommended minimum exceeded the
16 bytes of MD4, so strong_len=-1 gave 17 or 18, and explicit lengths
below that minimum skipped the check against the maximum.
---
 src/sumset.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sumset.c b/src/sumset.c
index 73f2358..f6904a3 100644
--- a/src/sumset.c
+++ b/src/sumset.c
@@ -167,6 +167,8 @@ rs_result rs_sig_args(rs_long_t old_fsize, rs_magic_number * magic,
         min_strong_len =
             2 + (rs_long_ln2(old_fsize + ((rs_long_t)1 << 24)) +
                  rs_long_ln2(old_fsize / *block_len + 1) + 7) / 8;
+        if (min_strong_len > max_strong_len)
+            min_strong_len = max_strong_len;
     }
     if (*strong_len == 0)
         *strong_len = max_strong_len;
-- 
2.43.0


From 772d10264466fe95cf9475a78c45f3e387d54376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:01 +0000
Subject: [PATCH 11/14] fix: size the hashtable without int overflow

size * 10 overflowed for more than 214748364 blocks and gave a table of
2 buckets, in which most blocks of the signature were never found.
---
 src/hashtable.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index ff3f29c..1a9ec7d 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -39,7 +39,10 @@ hashtable_t *_hashtable_new(int size)
     unsigned size2, bits2;
 
     /* Adjust requested size to account for max load factor. */
-    size = 1 + size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    size =
+        (int)(1 +
+              (long long)size * HASHTABLE_LOADFACTOR_DEN /
+              HASHTABLE_LOADFACTOR_NUM);
     /* Use next power of 2 larger than the requested size and get mask bits. */
     for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
-- 
2.43.0


From 5d1a628121e268607b64d54ac0bcde93d9152250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:33 +0000
Subject: [PATCH 12/14] fix: do not overflow the file buffer size for large
 block lengths

4 * block_len overflowed an int from block lengths of 2^29 on, which a
48 byte signature file can ask for: rs_delta_file() and rs_sig_file()
then tried to allocate an absurd buffer and aborted.
---
 src/whole.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/whole.c b/src/whole.c
index ebce253..55ae05d 100644
--- a/src/whole.c
+++ b/src/whole.c
@@ -28,6 +28,7 @@
                                */
 
 #include "config.h"             /* IWYU pragma: keep */
+#include <limits.h>
 #include <stdio.h>
 #include <string.h>
 #include "librsync.h"
@@ -40,6 +41,12 @@
 /** Whole file IO buffer sizes. */
 LIBRSYNC_EXPORT int rs_inbuflen = 0, rs_outbuflen = 0;
 
+/** Limit a wanted buffer size to one that fits an int. */
+static int rs_buf_len(size_t len)
+{
+    return len < INT_MAX ? (int)len : INT_MAX;
+}
+
 rs_result rs_whole_run(rs_job_t *job, FILE *in_file, FILE *out_file,
                        int inbuflen, int outbuflen)
 {
@@ -78,7 +85,7 @@ rs_result rs_sig_file(FILE *old_file, FILE *sig_file, size_t block_len,
         return r;
     job = rs_sig_begin(block_len, strong_len, sig_magic);
     /* Size inbuf for 4 blocks, outbuf for header + 4 blocksums. */
-    r = rs_whole_run(job, old_file, sig_file, 4 * (int)block_len,
+    r = rs_whole_run(job, old_file, sig_file, rs_buf_len(4 * block_len),
                      12 + 4 * (4 + (int)strong_len));
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
@@ -114,7 +121,8 @@ rs_result rs_delta_file(rs_signature_t *sig, FILE *new_file, FILE *delta_file,
     job = rs_delta_begin(sig);
     /* Size inbuf for 4*(CMD + 1 block), outbuf for 4*CMD. */
     r = rs_whole_run(job, new_file, delta_file,
-                     4 * (MAX_DELTA_CMD + sig->block_len), 4 * MAX_DELTA_CMD);
+                     rs_buf_len(4 * (MAX_DELTA_CMD + (size_t)sig->block_len)),
+                     4 * MAX_DELTA_CMD);
     if (stats)
         memcpy(stats, &job->stats, sizeof *stats);
     rs_job_free(job);
-- 
2.43.0


From f78dfb4eb39411fd2d3c20acb3bb0f33e2d4b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:45 +0000
Subject: [PATCH 13/14] fix: process a match that blocked on output before
 scanning on

A match found while output was blocked stayed in the input until the next
scan, so that a job could block without using any input or output and
rs_job_iter() would report an internal error.
---
 src/delta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/delta.c b/src/delta.c
index dbbe35b..c438f4b 100644
--- a/src/delta.c
+++ b/src/delta.c
@@ -134,6 +134,10 @@ static rs_result rs_delta_s_scan(rs_job_t *job)
     /* read the input into the scoop */
     if ((result = rs_getinput(job, block_len)) != RS_DONE)
         return result;
+    /* if output blocked before the last match was processed, process it now */
+    if (job->basis_len && job->scan_pos
+        && (result = rs_processmatch(job)) != RS_DONE)
+        return result;
     /* while output is not blocked and there is a block of data */
     while ((result == RS_DONE) && ((job->scan_pos + block_len) < job->scan_len)) {
         /* check if this block matches */
-- 
2.43.0


From b0b3eee5f3216cd1d427a1a4cfb4feafbe25e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:01 +0000
Subject: [PATCH 14/14] fix: refuse hashtables too large for an int size

For more than 751619276 blocks the power of two searched for is 2^31, which
no int reaches, so _hashtable_new() looped forever.
---
 src/hashtable.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hashtable.c b/src/hashtable.c
index 1a9ec7d..c54477e 100644
--- a/src/hashtable.c
+++ b/src/hashtable.c
@@ -19,6 +19,7 @@
  * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
  */
 #include <assert.h>
+#include <limits.h>
 #include <stdlib.h>
 #include "hashtable.h"
 
@@ -37,14 +38,17 @@ hashtable_t *_hashtable_new(int size)
 {
     hashtable_t *t;
     unsigned size2, bits2;
+    long long need;
 
     /* Adjust requested size to account for max load factor. */
-    size =
-        (int)(1 +
-              (long long)size * HASHTABLE_LOADFACTOR_DEN /
-              HASHTABLE_LOADFACTOR_NUM);
+    need =
+        1 +
+        (long long)size * HASHTABLE_LOADFACTOR_DEN / HASHTABLE_LOADFACTOR_NUM;
+    /* The table size is an int, so it can't be more than 2^30. */
+    if (need > INT_MAX / 2 + 1)
+        return NULL;
     /* Use next power of 2 larger than the requested size and get mask bits. */
-    for (size2 = 2, bits2 = 1; (int)size2 < size; size2 <<= 1, bits2++) ;
+    for (size2 = 2, bits2 = 1; (long long)size2 < need; size2 <<= 1, bits2++) ;
     if (!(t = calloc(1, sizeof(hashtable_t)+ size2 * sizeof(unsigned))))
         return NULL;
     if (!(t->etable = calloc(size2, sizeof(void *)))) {
-- 
2.43.0

