From 8f93188869239744f785f66e49b48f704ce04d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:12 +0000
Subject: [PATCH 01/50] fix: MIPS functions returning structures save all
 register parameters

---
 v0100/cgmips.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/v0100/cgmips.c b/v0100/cgmips.c
index 07a9359..15b1718 100644
--- a/v0100/cgmips.c
+++ b/v0100/cgmips.c
@@ -554,9 +554,15 @@ void GenUpdateFrameSize(void)
 STATIC
 void GenFxnProlog(void)
 {
-  if (CurFxnParamCntMin && CurFxnParamCntMax)
+  int i, cnt = CurFxnParamCntMin ? CurFxnParamCntMax : 0;
+#ifndef NO_STRUCT_BY_VAL
+  // The pointer to the structure receptacle is an implicit first parameter
+  if (CurFxnReturnExprTypeSynPtr >= 0 &&
+      SyntaxStack0[CurFxnReturnExprTypeSynPtr] == tokStructPtr)
+    cnt++;
+#endif
+  if (cnt)
   {
-    int i, cnt = CurFxnParamCntMax;
     if (cnt > 4)
       cnt = 4;
     // TBD!!! for structure passing use the cumulative parameter size
-- 
2.43.0


From e36e52c899fc86994d5bfc4f628572c9ac9c0664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 02/50] fix: fseek() relative to the current position skips
 data in the read buffer; a failing seek loses it

---
 v0100/srclib/fseek.c   | 22 ++++++++++++----------
 v0100/srclib/fseek16.c | 32 +++++++++++++++++++++-----------
 2 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/v0100/srclib/fseek.c b/v0100/srclib/fseek.c
index 3e7610f..4324a5c 100644
--- a/v0100/srclib/fseek.c
+++ b/v0100/srclib/fseek.c
@@ -48,22 +48,24 @@ int fseek(FILE* f, long offset, int whence)
     return -1;
   }
 
-  if (f->flags & _IORWOK)
-    f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
-  f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
-  f->ptr = f->buf;
-  f->cnt = 0; // force entrance into __fillbuf()/__flushbuf() on the next read/write
+  // If last was a read, the underlying file's current position is f->cnt bytes
+  // ahead of the C file's position
+  if (whence == SEEK_CUR && (f->flags & _IORD))
+    offset -= f->cnt;
 
   // "a+" mode isn't supported now because DOS doesn't support opening files in append mode directly.
   // "a" should ignore seek requests since it's always appending data at file's end and never reading anything.
-  if (f->flags & _IOAPPEND)
-    return 0;
-
-  if (__lseek(f->fd, offset, whence) == -1)
+  if ((f->flags & _IOAPPEND) == 0 && __lseek(f->fd, offset, whence) == -1)
   {
-    return -1;
+    return -1; // the position hasn't changed, keep the buffered data
   }
 
+  if (f->flags & _IORWOK)
+    f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
+  f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
+  f->ptr = f->buf;
+  f->cnt = 0; // force entrance into __fillbuf()/__flushbuf() on the next read/write
+
   return 0;
 }
 #endif
diff --git a/v0100/srclib/fseek16.c b/v0100/srclib/fseek16.c
index 54523cc..0e7fdcb 100644
--- a/v0100/srclib/fseek16.c
+++ b/v0100/srclib/fseek16.c
@@ -80,22 +80,32 @@ int __fseek(FILE* f, fpos_t* offset, int whence)
     return -1;
   }
 
+  // "a+" mode isn't supported now because DOS doesn't support opening files in append mode directly.
+  // "a" should ignore seek requests since it's always appending data at file's end and never reading anything.
+  if ((f->flags & _IOAPPEND) == 0)
+  {
+    pos = *offset; // preserve the position parameter
+
+    // If last was a read, the underlying file's current position is f->cnt bytes
+    // ahead of the C file's position
+    if (whence == SEEK_CUR && (f->flags & _IORD))
+    {
+      fpos_t t;
+      __lngFromUnsigned(&t, f->cnt);
+      __lngSub(&pos, &t);
+    }
+
+    if (__lseekp(f->fd, &pos, whence))
+    {
+      return -1; // the position hasn't changed, keep the buffered data
+    }
+  }
+
   if (f->flags & _IORWOK)
     f->flags &= ~(_IORD | _IOWR); // last operation for read-write files is neither
   f->flags &= ~_IOUNGOT; // ungetc()'s changes are gone
   f->ptr = f->buf;
   f->cnt = 0; // force entrance into __fillbuf()/__flushbuf() on the next read/write
 
-  // "a+" mode isn't supported now because DOS doesn't support opening files in append mode directly.
-  // "a" should ignore seek requests since it's always appending data at file's end and never reading anything.
-  if (f->flags & _IOAPPEND)
-    return 0;
-
-  pos = *offset; // preserve the position parameter
-  if (__lseekp(f->fd, &pos, whence))
-  {
-    return -1;
-  }
-
   return 0;
 }
-- 
2.43.0


From 3f604e24e6fdfeeee29eb6a4c070ead589288576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 03/50] fix: __ftell() seeks by the uninitialised position
 instead of querying it

---
 v0100/srclib/ftell16.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/srclib/ftell16.c b/v0100/srclib/ftell16.c
index abf234a..85e61b0 100644
--- a/v0100/srclib/ftell16.c
+++ b/v0100/srclib/ftell16.c
@@ -9,6 +9,7 @@
 
 int __ftell(FILE* f, fpos_t* pos)
 {
+  pos->halves[1] = pos->halves[0] = 0;
   if (__lseekp(f->fd, pos, SEEK_CUR))
   {
 //    errno = EUNKNOWN;
-- 
2.43.0


From d48c7d8f978aa79ecbe9e9f3851d0f289334a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 04/50] fix: ftell() reports a wrong position after a write in
 append mode

---
 v0100/srclib/ftell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/ftell.c b/v0100/srclib/ftell.c
index d3bfaef..24b20c9 100644
--- a/v0100/srclib/ftell.c
+++ b/v0100/srclib/ftell.c
@@ -9,7 +9,8 @@
 #ifdef __SMALLER_C_32__
 long ftell(FILE* f)
 {
-  long pos = __lseek(f->fd, 0L, SEEK_CUR);
+  // in append mode data is written at file's end irrespective of the current position
+  long pos = __lseek(f->fd, 0L, (f->flags & _IOAPPEND) ? SEEK_END : SEEK_CUR);
   if (pos == -1)
   {
 //    errno = EUNKNOWN;
-- 
2.43.0


From 576f8b7a194df10fa802d8c3ba06bf2bcc2816f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:45 +0000
Subject: [PATCH 05/50] fix: output right after input that reached end of file
 fails on update streams

---
 v0100/srclib/fillbuf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/srclib/fillbuf.c b/v0100/srclib/fillbuf.c
index 327502d..d94e0ac 100644
--- a/v0100/srclib/fillbuf.c
+++ b/v0100/srclib/fillbuf.c
@@ -73,7 +73,11 @@ int __fillbuf(FILE* f)
   if ((rread = __read(f->fd, f->buf, f->bufsz)) <= 0)
   {
     if (!rread)
+    {
       f->flags |= _IOEOF; // if simply read 0 bytes
+      if (f->flags & _IORWOK)
+        f->flags &= ~_IORD; // a write may immediately follow a read that has reached end of file
+    }
     else
       f->flags |= _IOERR; // if got an error
     f->cnt = 0;
-- 
2.43.0


From 595958521f7d040cb554c21ae1e404d73c45b737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 06/50] fix: data that a short write has written is written
 again by the next flush

---
 v0100/srclib/fflush.c   | 8 ++++++++
 v0100/srclib/flushbuf.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/v0100/srclib/fflush.c b/v0100/srclib/fflush.c
index 45f3346..8469bf4 100644
--- a/v0100/srclib/fflush.c
+++ b/v0100/srclib/fflush.c
@@ -2,6 +2,7 @@
   Copyright (c) 2014-2018, Alexey Frunze
   2-clause BSD license.
 */
+#include <string.h>
 #include "istdio.h"
 #include <unistd.h>
 
@@ -15,6 +16,13 @@ static int fflush1(FILE* f)
       ssize_t written = __write(f->fd, f->buf, sz); // TBD!!! review these writes/sizes
       if (written <= 0 || written != sz)
       {
+        if (written > 0)
+        {
+          // Don't write the same data again on the next attempt
+          memmove(f->buf, f->buf + written, sz - written);
+          f->ptr -= written;
+          f->cnt += written;
+        }
         f->flags |= _IOERR;
         return EOF;
       }
diff --git a/v0100/srclib/flushbuf.c b/v0100/srclib/flushbuf.c
index 28f1b04..d01f72f 100644
--- a/v0100/srclib/flushbuf.c
+++ b/v0100/srclib/flushbuf.c
@@ -3,6 +3,7 @@
   2-clause BSD license.
 */
 #include <stdlib.h>
+#include <string.h>
 #include "istdio.h"
 #include <unistd.h>
 
@@ -42,6 +43,13 @@ int __flushbuf(int c, FILE* f)
     written = __write(f->fd, f->buf, f->bufsz); // TBD!!! review these writes/sizes
     if (written <= 0 || written != f->bufsz)
     {
+      if (written > 0)
+      {
+        // Don't write the same data again on the next attempt
+        memmove(f->buf, f->buf + written, f->bufsz - written);
+        f->ptr -= written;
+        f->cnt += written;
+      }
       f->flags |= _IOERR;
       return EOF;
     }
-- 
2.43.0


From 15385570b82609c2bdfd6511b4522beb343ef16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 07/50] fix: fgets() and gets() return a part of the line as a
 success when reading fails

---
 v0100/srclib/fgets.c | 2 +-
 v0100/srclib/gets.c  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/fgets.c b/v0100/srclib/fgets.c
index 30811a3..cb4bb68 100644
--- a/v0100/srclib/fgets.c
+++ b/v0100/srclib/fgets.c
@@ -11,7 +11,7 @@ char* fgets(char* s, int n, FILE* f)
   while (--n > 0 && (c = fgetc(f)) != EOF)
     if ((*s++ = c) == '\n')
       break;
-  if (c == EOF && s == res)
+  if (c == EOF && (s == res || !feof(f))) // nothing read or a read error
     return NULL;
   *s = '\0';
   return res;
diff --git a/v0100/srclib/gets.c b/v0100/srclib/gets.c
index 7bb3fb3..95cf6e8 100644
--- a/v0100/srclib/gets.c
+++ b/v0100/srclib/gets.c
@@ -10,7 +10,7 @@ char* gets(char* s)
   int c;
   while ((c = getchar()) != '\n' && c != EOF)
     *s++ = c;
-  if (c == EOF && s == res)
+  if (c == EOF && (s == res || !feof(stdin))) // nothing read or a read error
     return NULL;
   *s = '\0';
   return res;
-- 
2.43.0


From b84a775d7632553f4ee3c9f87d652719cc1a266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 08/50] fix: puts() reports success after a failed write

---
 v0100/srclib/puts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v0100/srclib/puts.c b/v0100/srclib/puts.c
index 0834124..c6343e6 100644
--- a/v0100/srclib/puts.c
+++ b/v0100/srclib/puts.c
@@ -6,8 +6,8 @@
 
 int puts(char* s)
 {
-  int c;
+  int c, r = 0;
   while ((c = *s++) != '\0')
-    putchar(c);
-  return putchar('\n');
+    r |= putchar(c);
+  return r | putchar('\n');
 }
-- 
2.43.0


From 28702de87374bb78ce9e49d2341d54204377381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:31 +0000
Subject: [PATCH 09/50] fix: malloc() of nearly 4GB succeeds and shrinks the
 heap when the last block is free

---
 v0100/srclib/malloc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/malloc.c b/v0100/srclib/malloc.c
index 804c020..caf9016 100644
--- a/v0100/srclib/malloc.c
+++ b/v0100/srclib/malloc.c
@@ -303,10 +303,10 @@ void* malloc(unsigned size)
   else
   {
     togrow = size + 2*HEADER_FOOTER_SZ;
-    if ((int)togrow <= 0)
-      return 0;
     blk = (unsigned*)__heap_stop;
   }
+  if ((int)togrow <= 0) // too large, and a negative increment would shrink the heap
+    return 0;
 
   if ((int)__sbrk(togrow) != -1)
   {
-- 
2.43.0


From e6928983de8502ab317257e21a30a6c0b7044047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 10/50] fix: realloc() leaves the cut-off end of a shrunk block
 apart from the free block after it

---
 v0100/srclib/realloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/realloc.c b/v0100/srclib/realloc.c
index 88d5ea9..4bbd40f 100644
--- a/v0100/srclib/realloc.c
+++ b/v0100/srclib/realloc.c
@@ -107,9 +107,10 @@ void* realloc(void* ptr, unsigned size)
         mid[-1] = size;
         sz -= size + 2*HEADER_FOOTER_SZ;
         mid[0] = sz;
-        mid[1] = 0; // free
-        nxtblk[-2] = 0; // free
+        mid[1] = 1; // allocated
+        nxtblk[-2] = 1; // allocated
         nxtblk[-1] = sz;
+        free((void*)((unsigned)mid + HEADER_FOOTER_SZ)); // joins it with the next block if that's free
       }
       return ptr;
     }
-- 
2.43.0


From 731b9c789f2730f7095257ca66a97a0fb261329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 11/50] fix: strtof() converts nothing when the exponent
 doesn't fit into an int

---
 v0100/srclib/strtof.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/v0100/srclib/strtof.c b/v0100/srclib/strtof.c
index bc6f7d8..806edf7 100644
--- a/v0100/srclib/strtof.c
+++ b/v0100/srclib/strtof.c
@@ -113,11 +113,9 @@ float strtof(char* nptr, char** endptr)
         if (ex10 / 10 != eexp ||
             ex10 + d < ex10 ||
             ex10 + d > (unsigned)-1 / 2)
-        {
-          nptr = nptr0;
-          goto lend;
-        }
-        eexp = ex10 + d;
+          eexp = (unsigned)-1 / 2; // cap exponent
+        else
+          eexp = ex10 + d;
         nptr++;
       }
       if (!gotexp)
-- 
2.43.0


From 44938d15ce33841c02f5bc2a1135009882f9007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 12/50] fix: printf() prefixes a zero with 0x for %#hhx and
 %#hx when only the cut-off bits are set

---
 v0100/srclib/doprint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/srclib/doprint.c b/v0100/srclib/doprint.c
index 796328d..717c4ae 100644
--- a/v0100/srclib/doprint.c
+++ b/v0100/srclib/doprint.c
@@ -483,8 +483,6 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         base = 16;
         if (c == 'X')
           digits = "0123456789ABCDEF";
-        if (alt && v)
-          hexpfx = (c == 'X') ? "0X" : "0x";
       }
 
       if (c != 'd')
@@ -494,6 +492,8 @@ int __doprint(FILE* f, char* fmt, va_list vl)
         else if (lmodifier == 'h')
           v = (unsigned short)v;
         sign = 0;
+        if (alt && v && toupper(c) == 'X')
+          hexpfx = (c == 'X') ? "0X" : "0x";
       }
       else
       {
-- 
2.43.0


From 2267bd2ee5a34a29d118e10255d158cef47468d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 13/50] fix: scanf: white space in the format at end of input
 added one to the %n count

---
 v0100/srclib/doscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 29cecfb..77e3b8b 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -33,8 +33,9 @@ int __doscan(FILE* f, char* fmt, va_list vl)
         c2 = fgetc(f);
         chcnt++;
       } while (isspace(c2));
+      chcnt--;
       if (c2 != EOF)
-        ungetc(c2, f), chcnt--;
+        ungetc(c2, f);
     }
 
     else if (c != '%' || *fmt == '%')
-- 
2.43.0


From e37e931468c453e2dc22080bf220e6119986fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 14/50] fix: scanf: %% has to skip white space before matching
 the character

---
 v0100/srclib/doscan.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/v0100/srclib/doscan.c b/v0100/srclib/doscan.c
index 77e3b8b..674c2e3 100644
--- a/v0100/srclib/doscan.c
+++ b/v0100/srclib/doscan.c
@@ -40,7 +40,14 @@ int __doscan(FILE* f, char* fmt, va_list vl)
 
     else if (c != '%' || *fmt == '%')
     {
-      fmt += (c == '%');
+      if (c == '%')
+      {
+        fmt++;
+        while (isspace(c2 = fgetc(f)))
+          chcnt++;
+        if (c2 != EOF)
+          ungetc(c2, f);
+      }
       goto lmatchchars2;
 lmatchchars:
       if ((c = (unsigned char)*fmt++) == '\0')
-- 
2.43.0


From a5d3d6644e5258f09de948ca75c056c3cca13003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 15/50] fix: ucpp: # did not escape a quote inside a character
 constant or string after one

---
 v0100/ucpp/macro.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 56db94c..4846f1c 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -935,29 +935,24 @@ tokenize_error:
 static inline char *stringify_string(char *x)
 {
 	size_t l;
-	int i, inside_str = 0, inside_cc = 0, must_quote, has_quoted = 0;
+	int i, delim, must_quote, has_quoted;
 	char *y, *d = NULL;
 
 	for (i = 0; i < 2; i ++) {
 		if (i) d[0] = '"';
+		delim = has_quoted = 0;
 		for (l = 1, y = x; *y; y ++, l ++) {
 			must_quote = 0;
-			if (inside_cc) {
-				if (*y == '\\') {
-					must_quote = 1;
-					has_quoted = 1;
-				} else if (!has_quoted && *y == '\'')
-					inside_cc = 0;
-			} else if (inside_str) {
+			if (delim) {
 				if (*y == '"' || *y == '\\') must_quote = 1;
-				if (*y == '\\') has_quoted = 1;
-				else if (!has_quoted && *y == '"')
-					inside_str = 0;
+				if (has_quoted) has_quoted = 0;
+				else if (*y == '\\') has_quoted = 1;
+				else if (*y == delim) delim = 0;
 			} else if (*y == '"') {
-				inside_str = 1;
+				delim = *y;
 				must_quote = 1;
 			} else if (*y == '\'') {
-				inside_cc = 1;
+				delim = *y;
 			}
 			if (must_quote) {
 				if (i) d[l] = '\\';
-- 
2.43.0


From 53d19f78d2e969ce8c73bf3ac0a1752e266806ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 16/50] fix: ucpp: a name barred from expansion was expanded
 after passing through a second macro

---
 v0100/ucpp/macro.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index 4846f1c..ae02943 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -1282,7 +1282,7 @@ collect_args:
 	 */
 
 #define ZAP_LINE(t)	do { \
-		if ((t).type == NAME) { \
+		if ((t).type == NAME && (t).line >= 0) { \
 			struct macro *zlm = HTT_get(&macros, (t).name); \
 			if (zlm && zlm->nest > reject_nested) \
 				(t).line = -1 - (t).line; \
-- 
2.43.0


From d98df98338e17f8b1680eaab776444939598a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 17/50] fix: ucpp: a redefinition with another number of
 parameters was accepted

---
 v0100/ucpp/macro.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/ucpp/macro.c b/v0100/ucpp/macro.c
index ae02943..57494bb 100644
--- a/v0100/ucpp/macro.c
+++ b/v0100/ucpp/macro.c
@@ -479,7 +479,9 @@ int handle_define(struct lexer_state *ls)
 				}
 		}
 		if (!redef) m->narg = narg;
+		else if (narg != n->narg) goto redef_error;
 	} else {
+		if (redef && n->narg >= 0) goto redef_error;
 		if (!ttWHI(ls->ctok->type) && (ls->flags & WARN_STANDARD))
 			warning(ls->line, "identifier not followed by "
 				"whitespace in #define");
-- 
2.43.0


From 2629fc3d74168d2a1ab4d375eb6118b3ca42dbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 18/50] fix: ucpp: the type of ?: and of skipped operands in
 #if ignored unsignedness

---
 v0100/ucpp/eval.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 1bbd06d..19dd77a 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -522,6 +522,24 @@ static ppval eval_opbin(int op, ppval v1, ppval v2)
 	return r;
 }
 
+/*
+ * Find out whether the result of a binary operator is signed, without
+ * evaluating the operator.
+ */
+static int sign_opbin(int op, int s1, int s2)
+{
+	switch (op) {
+	case LSH:	case RSH:
+		return s1;
+	case LT:	case LEQ:	case GT:	case GEQ:
+	case SAME:	case NEQ:	case LAND:	case LOR:
+		return 1;
+	case COMMA:
+		return s2;
+	}
+	return s1 && s2;
+}
+
 static int ttOP(int x)
 {
 	return OP_UN(x) || OP_BIN(x) || x == QUEST || x == COLON;
@@ -627,8 +645,8 @@ eval_loop:
 			if ((ct->type == LOR && boolval(top))
 				|| (ct->type == LAND && !boolval(top))) {
 				tr = eval_shrd(tf, bp, 0);
+				top.sign = 1;
 				if (do_eval) {
-					top.sign = 1;
 					if (ct->type == LOR)
 						top.u.sv = big_s_fromint(1);
 					if (ct->type == LAND)
@@ -638,6 +656,9 @@ eval_loop:
 				tr = eval_shrd(tf, bp, do_eval);
 				if (do_eval)
 					top = eval_opbin(ct->type, top, tr);
+				else
+					top.sign = sign_opbin(ct->type,
+						top.sign, tr.sign);
 			}
 			goto eval_loop;
 		}
@@ -656,8 +677,11 @@ eval_loop:
 				throw(eval_exception);
 			}
 			r2 = eval_shrd(tf, bp, qv ? 0 : do_eval);
-			if (do_eval) {
-				if (qv) top = r1; else top = r2;
+			if (qv) top = r1; else top = r2;
+			/* promote operands, adjust signedness of result */
+			if (top.sign && (!r1.sign || !r2.sign)) {
+				top.u.uv = big_s_to_u(top.u.sv);
+				top.sign = 0;
 			}
 			goto eval_loop;
 		}
-- 
2.43.0


From a82f63f62e2335777effa765bcb2d25ce9fe90ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 19/50] fix: ucpp: #if 0x was accepted

---
 v0100/ucpp/eval.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/ucpp/eval.c b/v0100/ucpp/eval.c
index 19dd77a..9fea6bd 100644
--- a/v0100/ucpp/eval.c
+++ b/v0100/ucpp/eval.c
@@ -316,6 +316,11 @@ static ppval pp_strtoconst(char *refc)
 		if (*c == 'x' || *c == 'X') {
 			c ++;
 			d = big_u_hexconst(c, &ru, &rs, &sp);
+			if (d == c) {
+				error(eval_line, "invalid integer constant "
+					"'%s'", refc);
+				throw(eval_exception);
+			}
 		} else {
 			d = big_u_octconst(c, &ru, &rs, &sp);
 		}
-- 
2.43.0


From b00e8dcba41aa34e972d767015bbd848a7e537e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 20/50] fix: ucpp: #if defined without a name was accepted

---
 v0100/ucpp/cpp.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 5a0946c..a238889 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -974,24 +974,24 @@ static int handle_if(struct lexer_state *ls)
 
 		ct = tf.t + (tf.art ++);
 		if (ct->type == NAME && !strcmp(ct->name, "defined")) {
-			if (tf.art >= tf.nt) goto store_token;
+			if (tf.art >= tf.nt) goto defined_error;
 			nidx = tf.art;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
 			if (tf.t[nidx].type == NAME) {
 				eidx = nidx;
 				goto check_macro;
 			}
-			if (tf.t[nidx].type != LPAR) goto store_token;
-			if (++ nidx >= tf.nt) goto store_token;
+			if (tf.t[nidx].type != LPAR) goto defined_error;
+			if (++ nidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[nidx].type))
-				if (++ nidx >= tf.nt) goto store_token;
-			if (tf.t[nidx].type != NAME) goto store_token;
+				if (++ nidx >= tf.nt) goto defined_error;
+			if (tf.t[nidx].type != NAME) goto defined_error;
 			eidx = nidx + 1;
-			if (eidx >= tf.nt) goto store_token;
+			if (eidx >= tf.nt) goto defined_error;
 			if (ttMWS(tf.t[eidx].type))
-				if (++ eidx >= tf.nt) goto store_token;
-			if (tf.t[eidx].type != RPAR) goto store_token;
+				if (++ eidx >= tf.nt) goto defined_error;
+			if (tf.t[eidx].type != RPAR) goto defined_error;
 			goto check_macro;
 		}
 	store_token:
@@ -1004,6 +1004,13 @@ static int handle_if(struct lexer_state *ls)
 		rt.name = m ? "1L" : "0L";
 		aol(tf1.t, tf1.nt, rt, TOKEN_LIST_MEMG);
 		tf.art = eidx + 1;
+		continue;
+
+	defined_error:
+		error(l, "syntax error for the 'defined' operator");
+		freemem(tf.t);
+		if (tf1.nt) freemem(tf1.t);
+		return -1;
 	}
 	freemem(tf.t);
 	if (tf1.nt == 0) {
-- 
2.43.0


From b5a1c7f6e76db5e018c29e9ab2515d8dc7d44e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 21/50] fix: ucpp: an unknown directive was reported with exit
 status 0

---
 v0100/ucpp/cpp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index a238889..772add7 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -1920,6 +1920,7 @@ static int handle_cpp(struct lexer_state *ls, int sharp_type)
 		if (ls->flags & FAIL_SHARP) {
 			error(l, "unknown cpp directive '#%s'",
 				ls->ctok->name);
+			ret = 1;
 			goto handle_warp_ign;
 		} else {
 			struct token u;
-- 
2.43.0


From e4b0de947bc9e27d28204110e262650d30885cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:54 +0000
Subject: [PATCH 22/50] fix: ucpp: an unterminated #if was reported with exit
 status 0

---
 v0100/ucpp/cpp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/ucpp/cpp.c b/v0100/ucpp/cpp.c
index 772add7..deabdd2 100644
--- a/v0100/ucpp/cpp.c
+++ b/v0100/ucpp/cpp.c
@@ -2000,6 +2000,10 @@ int cpp(struct lexer_state *ls)
 			error(ls->line, "unterminated #if construction "
 				"(depth %ld)", ls->ifnest);
 			r = CPPERR_NEST;
+			if (ls_depth == 0) {
+				ls->ifnest = 0;
+				return r;
+			}
 		}
 		if (ls_depth == 0) return CPPERR_EOF;
 		close_input(ls);
-- 
2.43.0


From 61641ae595517a624cf521a2332c6c7be9eba704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 23/50] fix: smlrl: a.out: a section alignment over 4KB gave
 headers that disagreed with the file

---
 v0100/smlrl.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 6c2dc37..0045e07 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -2124,6 +2124,7 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
             break;
           case FormatWinPe32:
           case FormatElf32:
+          case FormatAout:
           case FormatMach32:
             if (align > 4096)
               error("Section alignment larger than page size (4KB)\n");
-- 
2.43.0


From 60d2be1caa9aa56688d15b4e6e1677f57d138d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:16 +0000
Subject: [PATCH 24/50] fix: smlrl: absolute symbols were looked up past the
 end of the section array

---
 v0100/smlrl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 0045e07..8f94647 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1655,6 +1655,8 @@ uint32 FindSymbolAddress(const char* SymName)
           tElfSection* pSect;
           if (pSym->st_shndx == SHN_COMMON)
             error("Common symbols unsupported\n");
+          if (pSym->st_shndx >= pMeta->SectionCnt)
+            error("Absolute symbols unsupported\n");
           pSect = &pMeta->pSections[pSym->st_shndx];
           addr = pSect->OutOffset + pSym->st_value;
           return addr;
@@ -3586,6 +3588,7 @@ void GenerateMap(void)
           // Check exported symbols
           if ((pSym->st_info >> 4) == STB_GLOBAL &&
               pSym->st_shndx &&
+              pSym->st_shndx < pMeta->SectionCnt && // not absolute or common
               pSym->st_name)
           {
             tElfSection* pSymSect = &pMeta->pSections[pSym->st_shndx];
-- 
2.43.0


From 8082e9774cb3c9cf5826d12f6fe6489d90e14102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:51 +0000
Subject: [PATCH 25/50] fix: smlrl: indices, offsets and string tables of
 object files were used unchecked

---
 v0100/smlrl.c | 89 ++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 78 insertions(+), 11 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 8f94647..c8b220c 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -928,12 +928,67 @@ int RelCmp(const void* p1_, const void* p2_)
   return 0;
 }
 
-// TBD??? Thoroughly validate ELF object files, specifically sections
+// Checks everything in an ELF object file that's going to be used as an index or an offset
+void validateElfObj(tElfMeta* pMeta, tElfSection* pSect)
+{
+  tElfSection* pSect2;
+  uint32 i;
+
+  switch (pSect->h.sh_type)
+  {
+  case SHT_SYMTAB:
+    if (pSect->h.sh_link >= pMeta->SectionCnt ||
+        pMeta->pSections[pSect->h.sh_link].h.sh_type != SHT_STRTAB)
+      error("Incorrect string table of symbols\n");
+    for (i = 0; i < pSect->h.sh_entsize; i++)
+    {
+      Elf32_Sym* pSym = &pSect->d.pSym[i];
+      if ((pSym->st_name && pSym->st_name >= pMeta->pSections[pSect->h.sh_link].h.sh_size) ||
+          (pSym->st_shndx >= pMeta->SectionCnt &&
+           (pSym->st_shndx < SHN_LORESERVE || (pSym->st_info & 0xF) == STT_SECTION)))
+        error("Incorrect symbol\n");
+    }
+    break;
+
+  case SHT_STRTAB:
+    if (pSect->h.sh_size && pSect->d.pStr[pSect->h.sh_size - 1])
+      error("Incorrect string table\n");
+    break;
+
+  case SHT_REL:
+    if (pSect->h.sh_link >= pMeta->SectionCnt ||
+        pMeta->pSections[pSect->h.sh_link].h.sh_type != SHT_SYMTAB ||
+        !pSect->h.sh_info ||
+        pSect->h.sh_info >= pMeta->SectionCnt)
+      error("Incorrect relocation section\n");
+    pSect2 = &pMeta->pSections[pSect->h.sh_info];
+    if (!(pSect2->h.sh_flags & SHF_ALLOC))
+      break; // e.g. debug information, not linked
+    for (i = 1; i < pMeta->SectionCnt; i++)
+      if (pMeta->pSections[i].h.sh_type == SHT_REL &&
+          pMeta->pSections[i].h.sh_info == pSect->h.sh_info &&
+          &pMeta->pSections[i] != pSect)
+        error("Multiple relocation sections for one section\n");
+    for (i = 0; i < pSect->h.sh_entsize; i++)
+    {
+      Elf32_Rel* pRel = &pSect->d.pRel[i];
+      uint32 relType = pRel->r_info & 0xFFu;
+      uint32 sz = (relType == R_386_16 || relType == R_386_PC16) ? 2 : 4;
+      if ((pRel->r_info >> 8) >= pMeta->pSections[pSect->h.sh_link].h.sh_size / sizeof(Elf32_Sym) ||
+          pSect2->h.sh_type != SHT_PROGBITS ||
+          pSect2->h.sh_size < sz ||
+          pRel->r_offset > pSect2->h.sh_size - sz)
+        error("Incorrect relocation\n");
+    }
+    break;
+  }
+}
+
 void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
 {
   Elf32_Ehdr elfHdr;
   Elf32_Shd sectHdr;
-  uint32 sectIdx;
+  uint32 sectIdx, sectNamesSize;
   int unsupported = 0;
 
   memset(pMeta, 0, sizeof *pMeta);
@@ -966,7 +1021,7 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
   if (elfHdr.e_machine != EM_386)
     error("Not an x86 file\n");
 
-  if (elfHdr.e_shoff == 0 || elfHdr.e_shstrndx == 0)
+  if (elfHdr.e_shoff == 0 || elfHdr.e_shstrndx == 0 || elfHdr.e_shstrndx >= elfHdr.e_shnum)
     error("Invalid file\n");
   Fseek(file, objOfs + elfHdr.e_shoff + elfHdr.e_shstrndx * sizeof sectHdr, SEEK_SET);
   Fread(&sectHdr, sizeof sectHdr, file);
@@ -975,6 +1030,9 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
 
   Fseek(file, objOfs + sectHdr.sh_offset, SEEK_SET);
   Fread(pMeta->pSectNames, sectHdr.sh_size, file);
+  sectNamesSize = sectHdr.sh_size;
+  if (!sectNamesSize || pMeta->pSectNames[sectNamesSize - 1])
+    error("Incorrect section names\n");
 
   pMeta->pSections = Malloc((elfHdr.e_shnum + 1) * sizeof(tElfSection));
 
@@ -1005,18 +1063,24 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
     if (sectHdr.sh_type == SHT_NULL)
       memset(&sectHdr, 0, sizeof sectHdr);
 
+    if (sectHdr.sh_name >= sectNamesSize)
+      error("Incorrect section name\n");
     if (sectHdr.sh_name)
       name = pMeta->pSectNames + sectHdr.sh_name;
 
     unsupported |=
-       sectHdr.sh_type != SHT_NULL &&
-       sectHdr.sh_type != SHT_PROGBITS &&
-       sectHdr.sh_type != SHT_SYMTAB &&
-       sectHdr.sh_type != SHT_STRTAB &&
-//       sectHdr.sh_type != SHT_RELA &&
-//       sectHdr.sh_type != SHT_NOTE &&
-       sectHdr.sh_type != SHT_NOBITS &&
-       sectHdr.sh_type != SHT_REL;
+       (sectIdx == 0 && sectHdr.sh_type != SHT_NULL) ||
+       ((sectHdr.sh_flags & SHF_ALLOC) &&
+        sectHdr.sh_type != SHT_PROGBITS &&
+        sectHdr.sh_type != SHT_NOBITS) ||
+       (sectHdr.sh_type != SHT_NULL &&
+        sectHdr.sh_type != SHT_PROGBITS &&
+        sectHdr.sh_type != SHT_SYMTAB &&
+        sectHdr.sh_type != SHT_STRTAB &&
+//        sectHdr.sh_type != SHT_RELA &&
+//        sectHdr.sh_type != SHT_NOTE &&
+        sectHdr.sh_type != SHT_NOBITS &&
+        sectHdr.sh_type != SHT_REL);
 
     if (sectHdr.sh_type < sizeof typeNames / sizeof typeNames[0])
       typeName = typeNames[sectHdr.sh_type];
@@ -1074,6 +1138,7 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
 
         Fseek(file, objOfs + ofs, SEEK_SET);
         Fread(pSect->d.pSym, sz, file);
+        validateElfObj(pMeta, pSect);
 
 #ifndef SUPPORT_LOCAL_RELS
         // Collect all local section symbols and throw away other local symbols
@@ -1109,6 +1174,7 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
       pSect->d.pStr = Malloc(pSect->h.sh_size);
       Fseek(file, objOfs + pSect->h.sh_offset, SEEK_SET);
       Fread(pSect->d.pStr, pSect->h.sh_size, file);
+      validateElfObj(pMeta, pSect);
       break;
 
     case SHT_REL:
@@ -1120,6 +1186,7 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
       pSect->d.pRel = Malloc(pSect->h.sh_size);
       Fseek(file, objOfs + pSect->h.sh_offset, SEEK_SET);
       Fread(pSect->d.pRel, pSect->h.sh_size, file);
+      validateElfObj(pMeta, pSect);
       // Sort the relocations by offset, so relocation can be done while copying sections
       qsort(pSect->d.pRel, pSect->h.sh_entsize, sizeof(Elf32_Rel), &RelCmp);
       break;
-- 
2.43.0


From bcf213576962567e5b39d1941f3baa10012344ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 26/50] fix: smlrl: sections that aren't loaded were linked in
 if named like a loaded one, and their relocations went into .relod

---
 v0100/smlrl.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index c8b220c..853818c 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1560,7 +1560,8 @@ void FindAllSections(void)
       if (!(pSect->h.sh_flags & SHF_ALLOC))
       {
         if (OutputFormat == FormatDosExeUnreal &&
-            pSect->h.sh_type == SHT_REL)
+            pSect->h.sh_type == SHT_REL &&
+            (pMeta->pSections[pSect->h.sh_info].h.sh_flags & SHF_ALLOC))
         {
           // Calculate the size of the new .relod section (count only 32-bit non-PC-relative relocations).
           uint32 relIdx;
@@ -2155,7 +2156,8 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
       {
         tElfSection* pSect = &pMeta->pSections[sectIdx];
         tElfSection* pRelSect = NULL;
-        if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
+        if (!(pSect->h.sh_flags & SHF_ALLOC) ||
+            strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
           continue;
         // Find relocations for this section, if any
         for (relSectIdx = 0; relSectIdx < pMeta->SectionCnt; relSectIdx++)
@@ -2319,7 +2321,8 @@ void Pass(int pass, FILE* fout, uint32 hdrsz)
           for (sectIdx = 0; sectIdx < pMeta->SectionCnt; sectIdx++)
           {
             tElfSection* pRelSect = &pMeta->pSections[sectIdx];
-            if (pRelSect->h.sh_type == SHT_REL)
+            if (pRelSect->h.sh_type == SHT_REL &&
+                (pMeta->pSections[pRelSect->h.sh_info].h.sh_flags & SHF_ALLOC))
             {
               // Handle only 32-bit non-PC-relative relocations.
               uint32 relIdx;
@@ -2621,7 +2624,8 @@ void RwAout(void)
         tElfSection* pRelSect = NULL;
         if (pSect->h.sh_type != SHT_PROGBITS)
           continue;
-        if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
+        if (!(pSect->h.sh_flags & SHF_ALLOC) ||
+            strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
           continue;
         // Find relocations for this section, if any
         for (relSectIdx = 0; relSectIdx < pMeta->SectionCnt; relSectIdx++)
@@ -3347,7 +3351,8 @@ void RwPe(void)
             const char* sectName;
             if (pSect->h.sh_type != SHT_PROGBITS)
               continue;
-            if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
+            if (!(pSect->h.sh_flags & SHF_ALLOC) ||
+                strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSect->h.sh_name))
               continue;
             // Find relocations for this section, if any
             for (relSectIdx = 0; relSectIdx < pMeta->SectionCnt; relSectIdx++)
@@ -3660,7 +3665,8 @@ void GenerateMap(void)
           {
             tElfSection* pSymSect = &pMeta->pSections[pSym->st_shndx];
             uint32 fofs, addr;
-            if (strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSymSect->h.sh_name))
+            if (!(pSymSect->h.sh_flags & SHF_ALLOC) ||
+                strcmp(pSectDescrs[j].pName, pMeta->pSectNames + pSymSect->h.sh_name))
               continue;
             fofs = pSymSect->OutFileOffset + pSym->st_value;
             addr = pSymSect->OutOffset + pSym->st_value;
-- 
2.43.0


From 08a2db5be178fc0deaa4cb550511e3ebcb825dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 27/50] fix: smlrl: relocations against undefined, absolute or
 misplaced local symbols gave garbage

---
 v0100/smlrl.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index 853818c..de31833 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1779,7 +1779,7 @@ void Relocate(tElfMeta* pMeta, tElfSection* pRelSect, Elf32_Rel* pRel, unsigned
     else if ((pSym->st_info & 0xF) == STT_SECTION && pSym->st_shndx)
       name = pMeta->pSectNames + pMeta->pSections[pSym->st_shndx].h.sh_name;
 
-    if ((pSym->st_info & 0xF) == STT_SECTION)
+    if ((pSym->st_info & 0xF) == STT_SECTION && pSym->st_shndx)
     {
       symAddr = pMeta->pSections[pSym->st_shndx].OutOffset;
     }
@@ -1788,7 +1788,9 @@ void Relocate(tElfMeta* pMeta, tElfSection* pRelSect, Elf32_Rel* pRel, unsigned
       symAddr = FindSymbolAddress(name);
     }
 #ifdef SUPPORT_LOCAL_RELS
-    else if ((pSym->st_info >> 4) == STB_LOCAL)
+    else if ((pSym->st_info >> 4) == STB_LOCAL &&
+             pSym->st_shndx &&
+             pSym->st_shndx < pMeta->SectionCnt)
     {
       symAddr = pMeta->pSections[pSym->st_shndx].OutOffset + pSym->st_value;
     }
-- 
2.43.0


From d3d458f38f184bf2c0e70d7081611886e78c6224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:28 +0000
Subject: [PATCH 28/50] fix: smlrl: wrapping sizes and offsets in archives made
 it loop or read another place

---
 v0100/smlrl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrl.c b/v0100/smlrl.c
index de31833..132bb34 100644
--- a/v0100/smlrl.c
+++ b/v0100/smlrl.c
@@ -1026,6 +1026,8 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
   Fseek(file, objOfs + elfHdr.e_shoff + elfHdr.e_shstrndx * sizeof sectHdr, SEEK_SET);
   Fread(&sectHdr, sizeof sectHdr, file);
 
+  if (objOfs + sectHdr.sh_offset < objOfs)
+    error("Incorrect section offset\n");
   pMeta->pSectNames = Malloc(sectHdr.sh_size);
 
   Fseek(file, objOfs + sectHdr.sh_offset, SEEK_SET);
@@ -1065,6 +1067,8 @@ void loadElfObj(tElfMeta* pMeta, const char* ElfName, FILE* file, uint32 objOfs)
 
     if (sectHdr.sh_name >= sectNamesSize)
       error("Incorrect section name\n");
+    if (objOfs + sectHdr.sh_offset < objOfs)
+      error("Incorrect section offset\n");
     if (sectHdr.sh_name)
       name = pMeta->pSectNames + sectHdr.sh_name;
 
@@ -1288,7 +1292,7 @@ void loadMeta(const char* FileName)
           break;
       }
 
-      if (nlen > fsz)
+      if (nlen > fsz || fsz > 0x7FFFFFFF - sizeof fh - ofs)
         errArchive();
 
       fofs = ofs + sizeof fh + nlen;
-- 
2.43.0


From 271837732a53973f96fc37c3b10c54e88568bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 29/50] fix: smlrcc: of repeated -ppg and -nopp options one
 could be left unrecognised

---
 v0100/smlrcc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 2d80b1f..2c57a24 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -1397,6 +1397,7 @@ int main(int argc, char* argv[])
       PreprocessWithGcc = 1;
       memmove(argv + i, argv + i + 1, (argc - i) * sizeof(char*));
       argc--;
+      i--;
     }
   }
   // Check if an external preprocessor shouldn't be used.
@@ -1409,6 +1410,7 @@ int main(int argc, char* argv[])
       UseExternalPreprocessor = PreprocessWithGcc = 0;
       memmove(argv + i, argv + i + 1, (argc - i) * sizeof(char*));
       argc--;
+      i--;
     }
   }
   if (PreprocessWithGcc)
-- 
2.43.0


From 7f78bac722a6d4123d5d22986328b90af6fbd844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 30/50] fix: smlrcc: an object file left by a failed assembler
 wasn't removed

---
 v0100/smlrcc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 2c57a24..4cae6de 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -861,7 +861,6 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, asmName);
 
     AddFile(&TemporaryFiles, &TemporaryFilesLen, asmName);
-    // TBD!!! also, if CompileToAsm==0, add .o file to temps here
     System(cmd);
 
     free(cmd);
@@ -906,6 +905,9 @@ void Compile(char* name)
     AddOption(&cmd, &cmdlen, "-o");
     AddOption(&cmd, &cmdlen, objName);
 
+    // Temporary object files will be removed at the end
+    if (!DontLink || DoArchive)
+      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
     System(cmd);
 
     free(cmd);
@@ -919,13 +921,10 @@ void Compile(char* name)
     if (!DontLink)
     {
       AddOption(&LinkerOptions, &LinkerOptionsLen, objName);
-      // Temporary object files will be removed at the end
-      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
     }
     else if (DoArchive)
     {
       AddFile(&ArchiveFiles, &ArchiveFilesLen, objName);
-      AddFile(&TemporaryFiles, &TemporaryFilesLen, objName);
     }
 
     if (objName != OutName)
-- 
2.43.0


From fc0543d5bd2c9575395c4c5309ccaaf322e44ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 31/50] fix: smlrcc: arguments with characters special to the
 UNIX shell weren't quoted

---
 v0100/smlrcc.c | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 4cae6de..9f025ec 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -576,9 +576,14 @@ void fatargs(int* pargc, char*** pargv)
 
 int EscapingNeeded(char* s)
 {
+#ifdef UNIX_LIKE
+  // sh has more special characters
+  return *s == '\0' || strpbrk(s, " \t\n\"'\\<>&|^;()$`*?[]#~!{}") != NULL;
+#else
   // Looks like DOS' COMMAND.COM and Windows' cmd.exe handle %
   // specially even inside double quotes (e.g. %path% would always expand).
   return *s == '\0' || strpbrk(s, " \t\"<>&|^") != NULL;
+#endif
 }
 
 // TBD!!! I should probably abandon the idea of launching subordinates via
@@ -588,6 +593,31 @@ size_t Escape(char* out, char* in, size_t outsz)
 {
   size_t sz = 0;
   int c;
+#ifdef UNIX_LIKE
+  // sh takes everything between apostrophes as is
+  if (sz++ < outsz)
+    *out++ = '\'';
+
+  while ((c = *in++) != '\0')
+  {
+    if (c == '\'')
+    {
+      // Close, add an escaped apostrophe and reopen
+      if (sz++ < outsz)
+        *out++ = c;
+      if (sz++ < outsz)
+        *out++ = '\\';
+      if (sz++ < outsz)
+        *out++ = c;
+    }
+
+    if (sz++ < outsz)
+      *out++ = c;
+  }
+
+  if (sz++ < outsz)
+    *out++ = '\'';
+#else
   size_t slashes = 0;
 
   if (sz++ < outsz)
@@ -628,6 +658,7 @@ size_t Escape(char* out, char* in, size_t outsz)
 
   if (sz++ < outsz)
     *out++ = '"';
+#endif
 
   if (sz++ < outsz)
     *out++ = '\0';
-- 
2.43.0


From 77cd8cb64b8ff6c4ee6b3272e81c5c8a6436ce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 32/50] fix: smlrcc: an unreadable response file was silently
 shortened

---
 v0100/smlrcc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrcc.c b/v0100/smlrcc.c
index 9f025ec..b55a3c6 100644
--- a/v0100/smlrcc.c
+++ b/v0100/smlrcc.c
@@ -539,8 +539,8 @@ void fatargs(int* pargc, char*** pargv)
           static const char* const sep = "\f\n\r\t\v ";
           char* p;
           memset(buf, '\0', sz + 1);
-          fseek(f, 0, SEEK_SET);
-          buf[fread(buf, 1, sz, f)] = '\0';
+          Fseek(f, 0, SEEK_SET);
+          Fread(buf, sz, f);
           p = strtok(buf, sep);
           pcnt--; // don't count the file name as an argument, count only what's inside
           while (p)
-- 
2.43.0


From f8add674ddd2e12980c92fe34c67ec6ca58a6b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:30 +0000
Subject: [PATCH 33/50] fix: n2f: a failure to write the last of the output
 file was ignored

---
 v0100/n2f.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/v0100/n2f.c b/v0100/n2f.c
index 7d87644..586b67e 100644
--- a/v0100/n2f.c
+++ b/v0100/n2f.c
@@ -448,7 +448,13 @@ void convert(void)
 
   fclose(fin);
   fin = NULL;
-  fclose(fout);
+
+  // What's been buffered is written out here and it can fail too
+  if (fclose(fout))
+  {
+    fout = NULL;
+    error("Failed to write file '%s'\n", out);
+  }
   fout = NULL;
 }
 
-- 
2.43.0


From 07b39ff2c10d7163a07cf7ac8d0b46d52d6d8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:11 +0000
Subject: [PATCH 34/50] fix: smlrc: a function declared static and then defined
 without the keyword was exported

---
 v0100/smlrc.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 04681be..53a5cd5 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -561,7 +561,8 @@ int MacroTableLen = 0;
 /*
   Identifier table entry format:
     id char[idlen]: string (ASCIIZ)
-    idlen char:     string length (<= 127)
+    idlen char:     string length (<= 127),
+                    bit 7: the function has been declared static
 */
 char IdentTable[MAX_IDENT_TABLE_LEN];
 int IdentTableLen = 0;
@@ -843,7 +844,7 @@ int FindIdent(char* name)
   int i;
   for (i = IdentTableLen; i > 0; )
   {
-    i -= 1 + IdentTable[i - 1];
+    i -= 1 + (IdentTable[i - 1] & 127);
     if (!strcmp(IdentTable + i, name))
       return i;
   }
@@ -8080,6 +8081,14 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
         //error("ParseDecl(): cannot declare a static function in this scope\n");
         errorDecl();
 
+      // Once declared static, the function stays static
+      // even if redeclared and defined without the keyword
+      if (isFxn & Static)
+      {
+        char* id = IdentTable + SyntaxStack1[lastSyntaxPtr];
+        id[strlen(id) + 1] |= 128;
+      }
+
       if (external & (tok == '='))
         //error("ParseDecl(): cannot initialize an external variable\n");
         errorInit();
@@ -8387,7 +8396,7 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
         CurHeaderFooter = CodeHeaderFooter;
         puts2(CurHeaderFooter[0]);
 
-        GenLabel(CurFxnName, Static);
+        GenLabel(CurFxnName, Static | (CurFxnName[strlen(CurFxnName) + 1] & 128));
 
 #ifndef MIPS
 #ifdef CAN_COMPILE_32BIT
-- 
2.43.0


From 2f30ecc9de5a0eba7a0a4edda56708bf122bd88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 35/50] fix: do not index the syntax stack with a negative type

A constant ?: of pointer type (1 ? 0 : t->n) has the type of a pointer to the
member's type, kept as a negative index; SyntaxStack0[] was read with it.
---
 v0100/smlrc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 53a5cd5..119ac10 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -3535,7 +3535,7 @@ void simplifyConstExpr(int val, int isConst, int* ExprTypeSynPtr, int top, int b
     return;
 
   // Const, but not a number yet. Reduce to a number equal val.
-  if (SyntaxStack0[*ExprTypeSynPtr] == tokUnsigned)
+  if (*ExprTypeSynPtr >= 0 && SyntaxStack0[*ExprTypeSynPtr] == tokUnsigned)
     stack[top][0] = tokNumUint;
   else
     stack[top][0] = tokNumInt;
@@ -5737,7 +5737,7 @@ int ParseExpr(int tok, int* GotUnary, int* ExprTypeSynPtr, int* ConstExpr, int*
       {
         GenStartCommentLine();
 
-        switch (SyntaxStack0[*ExprTypeSynPtr])
+        switch ((*ExprTypeSynPtr < 0) ? '*' : SyntaxStack0[*ExprTypeSynPtr])
         {
         case tokChar:
         case tokSChar:
-- 
2.43.0


From 3ab267c74a704559b11080a4da83cefaf4d80518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 36/50] fix: reject sizeof applied to a function

---
 v0100/smlrc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 119ac10..3fdf0a4 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -3873,6 +3873,9 @@ int exprval(int* idx, int* ExprTypeSynPtr, int* ConstExpr)
   // sizeof operator
   case tokSizeof:
     exprval(idx, ExprTypeSynPtr, ConstExpr);
+    // Functions have no size
+    if (*ExprTypeSynPtr >= 0 && SyntaxStack0[*ExprTypeSynPtr] == '(')
+      errorOpType();
     s = GetDeclSize(*ExprTypeSynPtr, 0);
     if (s == 0)
       error("sizeof of incomplete type\n");
-- 
2.43.0


From 6719f81c3177dadce83362d7d41a8402ded23bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 37/50] fix: the result of & is not an lvalue

&*pp left pp's own dereference on top, which passed for an lvalue in
&*pp = 0 and ++&*pp.
---
 v0100/smlrc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 3fdf0a4..06ad7bb 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -3909,7 +3909,12 @@ int exprval(int* idx, int* ExprTypeSynPtr, int* ConstExpr)
       // it's an lvalue (with implicit or explicit dereference),
       // convert it into its address by
       // collapsing/removing the reference and the dereference
-      del(oldIdxRight - (oldSpRight - sp), 2);
+      del(oldIdxRight - (oldSpRight - sp), 1);
+      if (stack[oldIdxRight - (oldSpRight - sp)][0] == tokUnaryStar)
+        // ensure non-lvalue-ness by hiding the remaining dereference
+        stack[oldIdxRight + 1 - (oldSpRight - sp)][0] = tokUnaryPlus;
+      else
+        del(oldIdxRight + 1 - (oldSpRight - sp), 1);
     }
     else
       //error("exprval(): lvalue expected after '&'\n");
-- 
2.43.0


From a445fd653b4fc08bc3a634317f1e73585c488cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 38/50] fix: reject ?: with one float and one void operand

---
 v0100/smlrc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 06ad7bb..a8b1d16 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -5363,6 +5363,11 @@ int exprval(int* idx, int* ExprTypeSynPtr, int* ConstExpr)
       fmask = isFloat(*ExprTypeSynPtr) * 2 + isFloat(RightExprTypeSynPtr);
       if (fmask && (structs | ptrmask)) // floats don't mix with pointers or structs/unions
         errorOpType();
+      if (fmask) // nor with void
+      {
+        nonVoidTypeCheck(*ExprTypeSynPtr);
+        nonVoidTypeCheck(RightExprTypeSynPtr);
+      }
 
       if (fmask)
       {
-- 
2.43.0


From d3715007f75bb55741d111fc124f578c5c63ca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 39/50] fix: accept a trailing comma in a braced initializer of
 a scalar or string

---
 v0100/smlrc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index a8b1d16..f480f03 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -7376,6 +7376,8 @@ int InitScalar(int synPtr, int tok)
 
   if (braces)
   {
+    if (tok == ',')
+      tok = GetToken();
     if (tok != '}')
       errorUnexpectedToken(tok);
     tok = GetToken();
@@ -7515,6 +7517,8 @@ int InitArray(int synPtr, int tok)
 
     if (braces)
     {
+      if (tok == ',')
+        tok = GetToken();
       if (tok != '}')
         errorUnexpectedToken(tok);
       tok = GetToken();
@@ -8354,6 +8358,8 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
 
           if (brace)
           {
+            if (tok == ',')
+              tok = GetToken();
             if (tok != '}')
               errorUnexpectedToken(tok);
             tok = GetToken();
-- 
2.43.0


From b12a952adb36990d6f9a8233371c4c386648d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 40/50] fix: reject a comma without a declarator after it in
 structure declarations

The tag-only form (struct S;) was recognised after a comma as well, so
struct S a,; was accepted.
---
 v0100/smlrc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index f480f03..5322fe0 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -7919,6 +7919,7 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
 {
   int base[2];
   int lastSyntaxPtr;
+  int first = 1;
   int external = tok == tokExtern;
   int Static = tok == tokStatic;
 #ifndef NO_TYPEDEF_ENUM
@@ -8001,7 +8002,7 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
 #endif
             Static) &&
           !strcmp(IdentTable + SyntaxStack1[lastSyntaxPtr], "<something>") &&
-          tok == ';')
+          tok == ';' && first)
       {
         if (isStruct)
         {
@@ -8516,6 +8517,7 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
       if ((tok == ';') | (tok == '}'))
         break;
 
+      first = 0;
       tok = GetToken();
       continue;
     }
-- 
2.43.0


From f58c9f71263dab2e8f849f07ac7e6f1bce8c3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 41/50] fix: reject typedefs of arrays with elements of
 incomplete type

---
 v0100/smlrc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 5322fe0..d46dcde 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8225,6 +8225,9 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
 #ifndef NO_TYPEDEF_ENUM
       if (typeDef)
       {
+        if (isArray && !GetDeclSize(lastSyntaxPtr + 4, 0))
+          // incomplete type of array element (e.g. struct/union)
+          errorDecl();
 #ifndef NO_ANNOTATIONS
         DumpDecl(lastSyntaxPtr, 0);
 #endif
-- 
2.43.0


From bd72764e87c7763041235c483b146e39d858f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 42/50] fix: require , or ; after the initializer of a local
 variable

int f(void) { int v = 1 } was accepted.
---
 v0100/smlrc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index d46dcde..f90944c 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8382,6 +8382,9 @@ int ParseDecl(int tok, unsigned structInfo[4], int cast, int label)
           // Storage of string literal data from the initializing expression
           // occurs here.
           GenExpr();
+
+          if (!tok || !strchr(",;", tok))
+            errorUnexpectedToken(tok);
         }
       }
       else if (tok == '{')
-- 
2.43.0


From beba31875b571afbac2dcbc7e3d22a38acceca20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:33 +0000
Subject: [PATCH 43/50] fix: reject a comma at the end of a parameter list

---
 v0100/smlrc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index f90944c..0fdea31 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -8640,6 +8640,9 @@ void ParseFxnParams(int tok)
         break;
 
       tok = GetToken();
+      // a parameter must follow the comma
+      if (tok == ')')
+        errorUnexpectedToken(tok);
       continue;
     }
 
-- 
2.43.0


From f3fc540428cfb960e8da58d31f4c7fc828e3e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 44/50] fix: ignore #line in skipped text

---
 v0100/smlrc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 0fdea31..3d74c58 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2099,6 +2099,14 @@ int GetToken(void)
         // DONE: should also support the following C89 form:
         // # line linenum filename-opt
 
+        // Don't act on it under a false #ifdef/#ifndef/#else
+        if (!PrepDontSkipTokens)
+        {
+          while (!strchr("\r\n", *p))
+            ShiftCharN(1);
+          continue;
+        }
+
         if (GetNumber() != tokNumInt)
           //error("Invalid line number in preprocessor output\n");
           errorDirective();
-- 
2.43.0


From aefc9d90cbeff594dcf0e046ab2ad1cd460212d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 45/50] fix: the line number in #line is decimal even if it
 starts with 0

---
 v0100/smlrc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 3d74c58..2d7ffbb 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2107,6 +2107,10 @@ int GetToken(void)
           continue;
         }
 
+        // The line number is always decimal
+        while (*p == '0' && isdigit(p[1] & 0xFFu))
+          ShiftCharN(1);
+
         if (GetNumber() != tokNumInt)
           //error("Invalid line number in preprocessor output\n");
           errorDirective();
-- 
2.43.0


From c7ad313bf4c431b4df47b08502533df764e9501d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 46/50] fix: keep spaces and comment characters in strings in
 macro definitions

---
 v0100/smlrc.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 2d7ffbb..e100658 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2228,6 +2228,8 @@ int GetToken(void)
 #ifndef NO_PREPROCESSOR
       if (!strcmp(TokenIdentName, "define"))
       {
+        int quot;
+
         // Skip space and get macro name
         SkipSpace(0);
         GetIdent();
@@ -2251,11 +2253,22 @@ int GetToken(void)
         SkipSpace(0);
 
         // accumulate the macro expansion text
+        quot = 0;
         while (!strchr("\r\n", *p))
         {
+          // preserve string literals and character constants
+          if (quot && *p == '\\' && !strchr("\r\n", p[1]))
+          {
+            AddMacroExpansionChar(*p);
+            ShiftCharN(1);
+          }
+          else if (*p == quot)
+            quot = 0;
+          else if (!quot && (*p == '"' || *p == '\''))
+            quot = *p;
           AddMacroExpansionChar(*p);
           ShiftCharN(1);
-          if (*p != '\0' && (strchr(" \t", *p) || (*p == '/' && (p[1] == '/' || p[1] == '*'))))
+          if (!quot && *p != '\0' && (strchr(" \t", *p) || (*p == '/' && (p[1] == '/' || p[1] == '*'))))
           {
             SkipSpace(0);
             AddMacroExpansionChar(' ');
-- 
2.43.0


From 1b6086c3867fd23bdbc1966683e565d2b63b62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 47/50] fix: ignore the operand of #include in skipped text

---
 v0100/smlrc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index e100658..1f9827f 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2297,6 +2297,13 @@ int GetToken(void)
       {
         int quot;
 
+        // The file name may be a macro under a false #ifdef/#ifndef/#else
+        if (!PrepDontSkipTokens)
+        {
+          SkipLine();
+          continue;
+        }
+
         // Skip space and get file name
         SkipSpace(0);
 
@@ -2314,8 +2321,7 @@ int GetToken(void)
           //error("Unsupported or invalid preprocessor directive\n");
           errorDirective();
 
-        if (PrepDontSkipTokens)
-          IncludeFile(quot);
+        IncludeFile(quot);
 
         continue;
       }
-- 
2.43.0


From 1d698d6f1bc790bf86cfe61b419802898b3b28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 48/50] fix: accept any characters in skipped text

---
 v0100/smlrc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 1f9827f..20b5540 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2393,6 +2393,13 @@ int GetToken(void)
       errorDirective();
     } // endof if (ch == '#')
 
+    // There may be any characters under a false #ifdef/#ifndef/#else
+    if (!PrepDontSkipTokens)
+    {
+      ShiftCharN(1);
+      continue;
+    }
+
     error("Invalid or unsupported character with code 0x%02X\n", *p & 0xFFu);
   } // endof for (;;)
 
-- 
2.43.0


From 3af3253ed876a40fee5c8c97449d3f8f3720f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 49/50] fix: report #ifdef/#ifndef without #endif

---
 v0100/smlrc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index 20b5540..d3fc3e5 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2403,6 +2403,11 @@ int GetToken(void)
     error("Invalid or unsupported character with code 0x%02X\n", *p & 0xFFu);
   } // endof for (;;)
 
+#ifndef NO_PREPROCESSOR
+  if (PrepSp)
+    error("#ifdef or #ifndef without #endif\n");
+#endif
+
   return tokEof;
 }
 
-- 
2.43.0


From 917364e2b45ea7469cea016556875fd48b126509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:43 +0000
Subject: [PATCH 50/50] fix: escape " and \ in __FILE__

---
 v0100/smlrc.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/v0100/smlrc.c b/v0100/smlrc.c
index d3fc3e5..5b7bf66 100644
--- a/v0100/smlrc.c
+++ b/v0100/smlrc.c
@@ -2019,10 +2019,17 @@ int GetToken(void)
       if (!strcmp(TokenIdentName, "__FILE__"))
       {
         char* p = FileNames[FileCnt - 1];
-        int len = strlen(p);
+        int len = 0, i;
+        for (i = 0; p[i] != '\0'; i++)
+          len += 1 + (p[i] == '"' || p[i] == '\\');
         Reserve4Expansion(TokenIdentName, len + 2);
         *CharQueue = '"';
-        memcpy(CharQueue + 1, p, len);
+        for (len = 0, i = 0; p[i] != '\0'; i++)
+        {
+          if (p[i] == '"' || p[i] == '\\')
+            CharQueue[++len] = '\\';
+          CharQueue[++len] = p[i];
+        }
         CharQueue[len + 1] = '"';
         continue;
       }
-- 
2.43.0

