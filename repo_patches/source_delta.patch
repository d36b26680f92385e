From e6ce475af628adc3b1cc2bfc73036743f702e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 001/100] fix: jstore_to_file() reports write errors detected
 when the file is closed

---
 src/utils/jstore.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index 8f0aa97..eefc599 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -313,9 +313,10 @@ int jstore_to_file(JStore *js, const char *filename)
     return err(1, "cannot write JSON store to file \"%s\"", filename);
   }
   n = fwrite(buf, strlen(buf), 1, fp);
-  fclose(fp);
   free(buf);
-  return (n == 1) ? 0 : 1;
+  if (fclose(fp) || n != 1)
+    return err(1, "error writing JSON store to file \"%s\"", filename);
+  return 0;
 }
 
 /* Return number of elements in the store. */
-- 
2.43.0


From b2ea5820904d8ca80a714f9daacc4ad335ed476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 002/100] fix: jstore_readfp() must not abort when fread()
 returns fewer bytes before end of file

---
 src/utils/jstore.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index eefc599..cf1f369 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -42,8 +42,7 @@ char *jstore_readfp(FILE *fp)
     if (ferror(fp)) FAIL("cannot read from stream. Is it a regular file "
                          "with read permissions?");
     bytes_read += n;
-  } while (n == bytes_left && !feof(fp));
-  assert(feof(fp));  // stream should be exausted
+  } while (!feof(fp));
   if (!(q = realloc(buf, bytes_read+1))) FAIL("reallocation failure");
   buf = q;
   buf[bytes_read] = '\0';
-- 
2.43.0


From b5527bd54d30c75a58e31d2664f3fe8d09a0b1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 003/100] fix: report errors when writing a single-entity JSON
 file

---
 src/dlite-json.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 45c4040..44ca9dc 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -396,7 +396,8 @@ int dlite_json_fprint(FILE *fp, const DLiteInstance *inst, int indent,
   char *buf=NULL;
   size_t size=0;
   if ((m = dlite_json_asprint(&buf, &size, 0, inst, indent, flags)) >= 0) {
-    fprintf(fp, "%s\n", buf);
+    if (fprintf(fp, "%s\n", buf) < 0)
+      m = err(dliteIOError, "error writing json");
     free(buf);
   }
   return m;
@@ -425,7 +426,8 @@ int dlite_json_printfile(const char *filename, const DLiteInstance *inst,
   if (!(fp = fopen(filename, "wt")))
     return err(1, "cannot write json to \"%s\"", filename);
   m = dlite_json_fprint(fp, inst, 0, flags);
-  fclose(fp);
+  if (fclose(fp) && m >= 0)
+    m = err(dliteIOError, "error writing json to \"%s\"", filename);
   return m;
 }
 
-- 
2.43.0


From 58acd82b8eaa57ca9fe2874a16df592152f9b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 004/100] fix: dlite_instance_save_loc() reports failure to
 close the storage

---
 src/dlite-entity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 958978e..e607ba0 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1102,7 +1102,7 @@ int dlite_instance_save_loc(const char *driver, const char *location,
   if (!(s = dlite_storage_open(driver, location, options))) goto fail;
   retval = dlite_instance_save(s, inst);
  fail:
-  if (s) dlite_storage_close(s);
+  if (s && dlite_storage_close(s)) retval = 1;
   return retval;
 }
 
-- 
2.43.0


From a704ffe16c7eb647a7bd8d48dba69a33886b0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 005/100] fix: allocate room for pointers, not bytes, when the
 storage hotlist shrinks

---
 src/dlite-storage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index f08a21c..3be38fb 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -559,7 +559,7 @@ int dlite_storage_hotlist_remove(const DLiteStorage *s)
   assert(length > h->nmemb);
   if (h->length > length) {
     const DLiteStorage **storages = realloc((DLiteStorage **)h->storages,
-                                            length);
+                                            length * sizeof(DLiteStorage *));
     assert(storages);  // redusing allocated memory should always be successful
     h->length = length;
     h->storages = storages;
-- 
2.43.0


From 67ed782e014a67bb5a4421a1702e5d35b28ca3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 006/100] fix: dlite_storage_load() must not hand out cached
 pointers to freed instances or cache failures

---
 src/dlite-storage.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 3be38fb..64f07c9 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -244,16 +244,19 @@ void dlite_storage_iter_free(DLiteStorage *s, void *iter)
 DLiteInstance *dlite_storage_load(const DLiteStorage *s, const char *id)
 {
   char uuid[DLITE_UUID_LENGTH+1];
-  DLiteInstance **ptr, *inst=NULL;
+  DLiteInstance *inst=NULL;
   if (dlite_get_uuid(uuid, id) < 0) return NULL;
-  if ((ptr = map_get(&(((DLiteStorage *)s)->cache), uuid))) return *ptr;
+
+  /* An entry in the cache marks that we are already loading this
+     instance.  This breaks recursive calls. */
+  if (map_get(&(((DLiteStorage *)s)->cache), uuid)) return NULL;
 
   if (s->api->loadInstance) {
-    /* Add NULL to cache to mark that we are about to load the instance and
-       break recursive calls */
     map_set(&(((DLiteStorage *)s)->cache), uuid, NULL);
     inst = s->api->loadInstance(s, id);
-    map_set(&(((DLiteStorage *)s)->cache), uuid, inst);
+    /* Do not keep the instance in the cache: we do not own a reference to
+       it, so it may be freed, and a failed load should be possible to retry */
+    map_remove(&(((DLiteStorage *)s)->cache), uuid);
   }
   return inst;
 }
-- 
2.43.0


From 86eb385cae6197a5cc94984342f7fb3fa410ceaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 007/100] fix: dlite_collection_save_url() reports failure to
 close the storage

---
 src/dlite-collection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 1d78f8e..0ac8e49 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -373,7 +373,7 @@ int dlite_collection_save_url(DLiteCollection *coll, const char *url)
   if (!(s = dlite_storage_open(driver, path, options))) goto fail;
   retval = dlite_collection_save(coll, s);
  fail:
-  if (s) dlite_storage_close(s);
+  if (s && dlite_storage_close(s)) retval = 1;
   if (str) free(str);
   return retval;
 }
-- 
2.43.0


From 6f062a48e091d5e091a889da2ed48bf17285a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:28 +0000
Subject: [PATCH 008/100] fix: json storage: mode=a creates a missing file, and
 an unreadable existing file is not truncated

---
 storages/json/dlite-json-storage.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 035aabb..12c630e 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -9,6 +9,7 @@
 
 #include "utils/err.h"
 #include "utils/strtob.h"
+#include "utils/fileutils.h"
 #include "utils/jstore.h"
 #include "utils/map.h"
 #include "dlite.h"
@@ -30,7 +31,7 @@ typedef struct {
 
 
 /** Returns default mode:
-    - 'w': if we can't open `uri`
+    - 'w': if `uri` doesn't exist
     - 'r': if `uri` is in single-entity format
     - 'a': otherwise
 */
@@ -48,7 +49,11 @@ static int default_mode(const char *uri, const unsigned char *buf, size_t size)
     break;
   ErrEnd;
 
-  mode = (stat) ? 'w' : (jstore_get(js, "properties")) ? 'r' : 'a';
+  if (stat)
+    /* Never overwrite an existing file just because we failed to read it */
+    mode = (uri && fu_exists(uri) == 0) ? 'a' : 'w';
+  else
+    mode = (jstore_get(js, "properties")) ? 'r' : 'a';
   jstore_close(js);
   return mode;
 }
@@ -130,7 +135,7 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
   case 'a':
     if (single > 0) FAILCODE(dliteStorageSaveError,
                              "cannot append in single-entity format");
-    load = 1;
+    load = (!uri || fu_exists(uri) == 0);  // create new file if it doesn't exists
     s->flags |= dliteReadable;
     s->flags |= dliteWritable;
     break;
@@ -162,6 +167,8 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
       fmt = dlite_jstore_loads(s->jstore, (const char *)buf, size);
     if (fmt < 0) goto fail;
     if (fmt == dliteJsonMetaFormat && mode != 'a') s->flags &= ~dliteWritable;
+  } else if (mode == 'a') {
+    if (!(s->jstore = jstore_open())) goto fail;
   }
 
   retval = (DLiteStorage *)s;
-- 
2.43.0


From 498fdf394920f9aff2e9cfe9a7bbbc713d217141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 009/100] fix: JSON strings are escaped when written and
 decoded when read

---
 src/dlite-entity.c   |  33 ++++++++++++--
 src/dlite-json.c     |   3 +-
 src/utils/strutils.c | 103 +++++++++++++++++++++++++++++++++++++++----
 3 files changed, 125 insertions(+), 14 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index e607ba0..559950a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3186,6 +3186,33 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
 }
 
 
+/*
+  Help function for scanning the single value that JSON token `t` refers to.
+
+  The characters between the quotes of a JSON string are decoded according
+  to the JSON escape rules.  A JSON null corresponds to an unset string.
+
+  Returns number of characters consumed or a negative number on error.
+*/
+static int scantoken(const char *src, const jsmntok_t *t, void *ptr,
+                     const DLiteProperty *p, DLiteTypeFlag flags)
+{
+  int len = t->end - t->start;
+  if (t->type == JSMN_STRING &&
+      (p->type == dliteStringPtr || p->type == dliteFixString)) {
+    int m = dlite_type_scan(src + t->start - 1, len + 2, ptr, p->type, p->size,
+                            dliteFlagQuoted);
+    return (m < 0) ? m : len;
+  }
+  if (t->type == JSMN_PRIMITIVE && p->type == dliteStringPtr &&
+      len == 4 && strncmp(src + t->start, "null", 4) == 0) {
+    free(*(char **)ptr);
+    *(char **)ptr = NULL;
+    return len;
+  }
+  return dlite_type_scan(src + t->start, len, ptr, p->type, p->size, flags);
+}
+
 /*
   Recursive help function for dlite_property_scan() for handling
   n-dimensional arrays.
@@ -3217,8 +3244,7 @@ static int scandim(int d, const char *src, void **pptr,
       if (scandim(d+1, src, pptr, p, shape, flags, t)) goto fail;
     }
   } else {
-    if ((m = dlite_type_scan(src+(*t)->start, (*t)->end-(*t)->start, *pptr,
-                             p->type, p->size, flags)) < 0) return m;
+    if ((m = scantoken(src, *t, *pptr, p, flags)) < 0) return m;
     *((char **)pptr) += p->size;
     *t += jsmn_count(*t);
   }
@@ -3441,8 +3467,7 @@ int dlite_property_jscan(const char *src, const jsmntok_t *item,
     }
     return len;
   } else {
-    return dlite_type_scan(src + item->start, item->end - item->start,
-                           ptr, p->type, p->size, flags);
+    return scantoken(src, item, ptr, p, flags);
   }
 }
 
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 44ca9dc..95ae182 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -720,8 +720,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         } else {
           if (!ptr)
             FAIL1("cannot assign property with NULL destination: %s", p->name);
-          if (dlite_type_scan(src+t->start, t->end - t->start, ptr, p->type,
-                              p->size, 0) < 0)
+          if (dlite_property_jscan(src, t, NULL, ptr, p, pdims, 0) < 0)
             goto fail;
         }
       } else if (dlite_instance_is_meta(inst)) {
diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 414010f..d6fee82 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -246,8 +246,9 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 /*
   Double-quote input string `s` and write it to `dest`.
 
-  Embedded double-quotes are escaped with backslash. At most `size`
-  characters are written to `dest` (including terminating NUL).
+  Embedded double-quotes, backslashes and control characters are
+  escaped as in JSON. At most `size` characters are written to `dest`
+  (including terminating NUL).
 
   If `s` is NULL, this function will behave similarly to snprintf(),
   except for the added quoting marks.
@@ -284,11 +285,25 @@ int strnquote(char *dest, size_t size, const char *s, int n,
        If `n` is positive, consume at most `n` characters from `s`. */
     while (s[j] && (n < 0 || (int)j < n)) {
 
-      /* Add backslash (escape) in front of double-quote characters
-         when copying to `dest` */
-      if (s[j] == '"' && !(flags & strquoteNoEscape)) {
-        if (size > i) dest[i] = '\\';
-        i++;
+      /* Escape double-quotes, backslashes and control characters the
+         way JSON requires when copying to `dest` */
+      if (!(flags & strquoteNoEscape) &&
+          (s[j] == '"' || s[j] == '\\' || (unsigned char)s[j] < 0x20)) {
+        char esc[8] = {'\\', s[j], '\0'};
+        size_t k;
+        switch (s[j]) {
+        case '"':  case '\\': break;
+        case '\b': esc[1] = 'b'; break;
+        case '\f': esc[1] = 'f'; break;
+        case '\n': esc[1] = 'n'; break;
+        case '\r': esc[1] = 'r'; break;
+        case '\t': esc[1] = 't'; break;
+        default: snprintf(esc, sizeof(esc), "\\u%04x", (unsigned char)s[j]);
+        }
+        for (k=0; esc[k]; k++, i++)
+          if (size > i) dest[i] = esc[k];
+        j++;
+        continue;
       }
       if (size > i) dest[i] = s[j];
       i++;
@@ -317,6 +332,69 @@ int strnquote(char *dest, size_t size, const char *s, int n,
 }
 
 
+/* Help function for strnunquote().  Reads 4 hexadecimal digits from `s`.
+   Returns their value or -1 if `s` does not start with 4 such digits. */
+static long read_hex4(const char *s)
+{
+  char buf[5];
+  int i;
+  for (i=0; i<4; i++) {
+    if (!isxdigit((unsigned char)s[i])) return -1;
+    buf[i] = s[i];
+  }
+  buf[4] = '\0';
+  return strtol(buf, NULL, 16);
+}
+
+/* Help function for strnunquote().  Decodes the JSON escape sequence that
+   starts with the backslash at `s`.  The decoded bytes are written to `out`
+   and their number to `*nout`.
+
+   Returns the length of the escape sequence or zero if it isn't recognised. */
+static int decode_escape(const char *s, char out[4], int *nout)
+{
+  long c, c2;
+  int len=2;
+  *nout = 1;
+  switch (s[1]) {
+  case '"': case '\\': case '/': out[0] = s[1]; return len;
+  case 'b': out[0] = '\b'; return len;
+  case 'f': out[0] = '\f'; return len;
+  case 'n': out[0] = '\n'; return len;
+  case 'r': out[0] = '\r'; return len;
+  case 't': out[0] = '\t'; return len;
+  case 'u': break;
+  default: return 0;
+  }
+  if ((c = read_hex4(s+2)) <= 0) return 0;
+  len = 6;
+  if (c >= 0xd800 && c < 0xdc00 && s[6] == '\\' && s[7] == 'u' &&
+      (c2 = read_hex4(s+8)) >= 0xdc00 && c2 < 0xe000) {
+    c = 0x10000 + ((c - 0xd800) << 10) + (c2 - 0xdc00);
+    len = 12;
+  }
+  if (c < 0x80) {
+    out[0] = (char)c;
+  } else if (c < 0x800) {
+    out[0] = (char)(0xc0 | (c >> 6));
+    out[1] = (char)(0x80 | (c & 0x3f));
+    *nout = 2;
+  } else if (c < 0x10000) {
+    out[0] = (char)(0xe0 | (c >> 12));
+    out[1] = (char)(0x80 | ((c >> 6) & 0x3f));
+    out[2] = (char)(0x80 | (c & 0x3f));
+    *nout = 3;
+  } else {
+    out[0] = (char)(0xf0 | (c >> 18));
+    out[1] = (char)(0x80 | ((c >> 12) & 0x3f));
+    out[2] = (char)(0x80 | ((c >> 6) & 0x3f));
+    out[3] = (char)(0x80 | (c & 0x3f));
+    *nout = 4;
+  }
+  return len;
+}
+
+
 /*
   Strip double-quotes from `s` and write the result to `dest`.
 
@@ -360,8 +438,17 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
     while (isspace(s[j])) j++;
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
   while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
-    if (!(flags & strquoteNoEscape) && s[j] == '\\' && s[j+1] == '"') j++;
     if (n >= 0 && (int)j >= n) break;
+    if (!(flags & strquoteNoEscape) && s[j] == '\\') {
+      char out[4];
+      int k, nout=0, len = decode_escape(s+j, out, &nout);
+      if (len && (n < 0 || (int)j + len <= n)) {
+        for (k=0; k<nout; k++, i++)
+          if (dest && size > i) dest[i] = out[k];
+        j += len;
+        continue;
+      }
+    }
     if (dest && size > i) dest[i] = s[j];
     i++;
     j++;
-- 
2.43.0


From e17194ce0eb48d0790a2dba008bc1247eb4ffbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:22 +0000
Subject: [PATCH 010/100] fix: JSON storage keeps all digits of floats, special
 characters in metadata texts, and separates relations by commas

---
 bindings/python/dlite-jstore-python.i |  2 +-
 bindings/python/utils.py              |  2 +-
 src/dlite-entity.c                    | 20 ++++++--
 src/dlite-json.c                      | 73 ++++++++++++++++++---------
 src/dlite-type.c                      | 72 +++++++++++++++++++++-----
 src/dlite-type.h                      |  3 +-
 6 files changed, 130 insertions(+), 42 deletions(-)

diff --git a/bindings/python/dlite-jstore-python.i b/bindings/python/dlite-jstore-python.i
index 31a3f9a..e7fb750 100644
--- a/bindings/python/dlite-jstore-python.i
+++ b/bindings/python/dlite-jstore-python.i
@@ -153,7 +153,7 @@ def format_dict(
         )
 
     if "relations" in d:
-        dct["relations"] = d["repations"].copy()
+        dct["relations"] = d["relations"].copy()
 
     if single:
         return dct
diff --git a/bindings/python/utils.py b/bindings/python/utils.py
index 5c9df6e..1f84920 100644
--- a/bindings/python/utils.py
+++ b/bindings/python/utils.py
@@ -158,7 +158,7 @@ class DictStore(dict):
             )
 
         if "relations" in d:
-            dct["relations"] = d["repations"].copy()
+            dct["relations"] = d["relations"].copy()
 
         self[uuid] = dct
 
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 559950a..dce5e94 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3253,6 +3253,18 @@ static int scandim(int d, const char *src, void **pptr,
   return err(dliteIOError, "failed to scan string representation of array");
 }
 
+/* Returns a malloc'ed copy of the decoded JSON string refered to by token `t`
+   or NULL on error. */
+static char *dup_jsonstring(const char *src, const jsmntok_t *t)
+{
+  char *buf=NULL;
+  size_t size=0;
+  if (strnput_unquote(&buf, &size, 0, src + t->start, t->end - t->start,
+                      NULL, strquoteNoQuote | strquoteInitialBlanks) < 0)
+    return NULL;
+  return buf;
+}
+
 /*
   Help function for scanning dimensions and properties expressed as
   JSON objects (SOFT7 format).
@@ -3288,7 +3300,7 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         if (dim->description) free(dim->description);
         memset(dim, 0, sizeof(DLiteDimension));
         dim->name = strndup(key, keylen);
-        dim->description = strndup(val, len);
+        dim->description = dup_jsonstring(src, item);
       } else if (item->type == JSMN_OBJECT) {
         int i;
         for (i=0; i < item->size; i++, dim++) {
@@ -3298,7 +3310,7 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
           if (dim->description) free(dim->description);
           memset(dim, 0, sizeof(DLiteDimension));
           dim->name = strndup(src + k->start, k->end - k->start);
-          dim->description = strndup(src + v->start, v->end - v->start);
+          dim->description = dup_jsonstring(src, v);
         }
       } else
         return err(dliteValueError,
@@ -3369,10 +3381,10 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         }
 
         if ((t = jsmn_item(src, v, "unit")))
-          prop->unit = strndup(src + t->start, t->end - t->start);
+          prop->unit = dup_jsonstring(src, t);
 
         if ((t = jsmn_item(src, v, "description")))
-          prop->description = strndup(src + t->start, t->end - t->start);
+          prop->description = dup_jsonstring(src, t);
 
         v += jsmn_count(v) + 1;
       }
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 95ae182..2b5e63d 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -51,6 +51,14 @@
     n += m;                                                             \
   } while (0)
 
+/* Prints string `a` as a quoted JSON string. */
+#define PRINTQ(a)                                       \
+  do {                                                  \
+    int m = strquote(dest+n, PDIFF(size, n), a);        \
+    if (m < 0) goto fail;                               \
+    n += m;                                             \
+  } while (0)
+
 
 /* Forward declarations */
 static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length);
@@ -74,6 +82,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   size_t i;
   char *in;
   char *prop_comma = (inst->_parent && !(flags & dliteJsonNoParent)) ? "," : "";
+  int has_rel = dlite_meta_has_property(inst->meta, "relations");
   DLiteTypeFlag f = dliteFlagQuoted;
   if (!(in = malloc(indent + 1)))
     return err(dliteMemoryError, "Allocation failure");
@@ -108,7 +117,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       void *ptr = dlite_instance_get_property_by_index(inst, i);
       size_t *shape= DLITE_PROP_DIMS(inst, i);
       PRINT2("%s    \"%s\": ", in, p->name);
-      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -2, f);
+      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
       if (m < 0) return -1;
       n += m;
       PRINT1("%s\n", c);
@@ -119,8 +128,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     DLiteMeta *met = (DLiteMeta *)inst;
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINTQ(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": [\n", in);
     for (i=0; i < met->_ndimensions; i++) {
@@ -128,8 +140,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       DLiteDimension *d = met->_dimensions + i;
       PRINT1("%s    {\n", in);
       PRINT2("%s      \"name\": \"%s\"", in, d->name);
-      if (d->description)
-        PRINT2(",\n%s      \"description\": \"%s\"\n", in, d->description);
+      if (d->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTQ(d->description);
+        PRINT("\n");
+      }
       PRINT2("%s    }%s\n", in, c);
     }
     PRINT1("%s  ],\n", in);
@@ -153,15 +168,19 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit && *p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINTQ(p->unit);
+      }
+      if (p->description && *p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTQ(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
-    PRINT1("%s  ]\n", in);
+    PRINT2("%s  ]%s\n", in, (has_rel) ? "," : prop_comma);
 
-    if (dlite_instance_get_property((DLiteInstance *)inst->meta, "relations")) {
+    if (has_rel) {
       PRINT1("%s  \"relations\": [\n", in);
       for (i=0; i < met->_nrelations; i++) {
         int m;
@@ -178,8 +197,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         m = strquote(dest+n, PDIFF(size, n), r->o);
         if (m < 0) goto fail;
         n += m;
-        PRINT("]\n");
-
+        PRINT1("]%s\n", (i < met->_nrelations - 1) ? "," : "");
       }
       PRINT2("%s  ]%s\n", in, prop_comma);
     }
@@ -189,14 +207,19 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
 
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINTQ(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": {\n", in);
     for (i=0; i < met->_ndimensions; i++) {
       char *c = (i < met->_ndimensions - 1) ? "," : "";
       DLiteDimension *d = met->_dimensions + i;
-      PRINT4("%s    \"%s\": \"%s\"%s\n", in, d->name, d->description, c);
+      PRINT2("%s    \"%s\": ", in, d->name);
+      PRINTQ((d->description) ? d->description : "");
+      PRINT1("%s\n", c);
     }
     PRINT1("%s  },\n", in);
 
@@ -218,15 +241,19 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit && *p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINTQ(p->unit);
+      }
+      if (p->description && *p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINTQ(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
-    PRINT1("%s  }\n", in);
+    PRINT2("%s  }%s\n", in, (has_rel) ? "," : prop_comma);
 
-    if (dlite_instance_get_property((DLiteInstance *)inst->meta, "relations")) {
+    if (has_rel) {
       PRINT1("%s  \"relations\": [\n", in);
       for (i=0; i < met->_nrelations; i++) {
         int m;
@@ -243,7 +270,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         m = strquote(dest+n, PDIFF(size, n), r->o);
         if (m < 0) goto fail;
         n += m;
-        PRINT("]\n");
+        PRINT1("]%s\n", (i < met->_nrelations - 1) ? "," : "");
       }
       PRINT2("%s  ]%s\n", in, prop_comma);
     }
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 39cb890..6a4fd61 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -4,6 +4,7 @@
 #include <string.h>
 #include <stddef.h>
 #include <ctype.h>
+#include <float.h>
 #ifdef HAVE_INTTYPES_H
 #include <inttypes.h>
 #endif
@@ -697,6 +698,33 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
 /* Expands to `a - b` if `a > b` else to `0`. */
 #define PDIFF(a, b) (((size_t)(a) > (size_t)(b)) ? (a) - (b) : 0)
 
+/*
+  Returns the smallest precision (not less than 6, which is the printf()
+  default) needed to print the float of size `size` pointed to by `p` without
+  loosing information.
+ */
+static int float_precision(const void *p, size_t size)
+{
+  int prec;
+  char buf[64];
+  for (prec=6; prec < 17; prec++) {
+    if (size == 4) {
+      float32_t v = *((float32_t *)p);
+      if (prec >= 9 || v != v) break;
+      snprintf(buf, sizeof(buf), "%.*g", prec, v);
+      if (strtof(buf, NULL) == v) break;
+    } else if (size == 8) {
+      float64_t v = *((float64_t *)p);
+      if (v != v) break;
+      snprintf(buf, sizeof(buf), "%.*g", prec, v);
+      if (strtod(buf, NULL) == v) break;
+    } else {
+      return LDBL_DECIMAL_DIG;
+    }
+  }
+  return prec;
+}
+
 /*
   Serialises data of type `dtype` and size `size` pointed to by `p`.
   The string representation is written to `dest`.  No more than
@@ -705,7 +733,8 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats are
+  written with as many digits as needed to represent them exactly.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
@@ -785,6 +814,7 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
   case dliteFloat:
     if (w == -1) w = 12;
     if (r == -1) r = 6;
+    if (r == -3) r = float_precision(p, size);
     switch (size) {
     case 4:  m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p)); break;
     case 8:  m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p)); break;
@@ -828,9 +858,12 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     break;
 
   case dliteDimension:
-    m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": \"%s\"}",
-                 ((DLiteDimension *)p)->name,
-                 ((DLiteDimension *)p)->description);
+    {
+      DLiteDimension *d = (DLiteDimension *)p;
+      m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": ", d->name);
+      m += strquote(dest+m, PDIFF(n, m), (d->description) ? d->description : "");
+      m += snprintf(dest+m, PDIFF(n, m), "}");
+    }
     break;
 
   case dliteProperty:
@@ -852,11 +885,14 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
                         (i < prop->ndims-1) ? ", " : "");
         m += snprintf(dest+m, PDIFF(n, m), "]");
       }
-      if (prop->unit && *prop->unit)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": \"%s\"", prop->unit);
-      if (prop->description && *prop->description)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": \"%s\"",
-                      prop->description);
+      if (prop->unit && *prop->unit) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->unit);
+      }
+      if (prop->description && *prop->description) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->description);
+      }
       m += snprintf(dest+m, PDIFF(n, m), "}");
     }
     break;
@@ -928,6 +964,18 @@ int dlite_type_aprint(char **dest, size_t *n, size_t pos, const void *p,
 #define MAX_PROPERTY_TOKENS  64  // this supports at least 50 dimensions...
 #define MAX_RELATION_TOKENS  11
 
+/* Returns a malloc'ed copy of the decoded JSON string refered to by token `t`
+   or NULL on error. */
+static char *dup_jsonstring(const char *src, const jsmntok_t *t)
+{
+  char *buf=NULL;
+  size_t size=0;
+  if (strnput_unquote(&buf, &size, 0, src + t->start, t->end - t->start,
+                      NULL, strquoteNoQuote | strquoteInitialBlanks) < 0)
+    return NULL;
+  return buf;
+}
+
 /* Macro used by dlite_type_scan() to asign `target` when scanning a
    relation. */
 #define SET_RELATION(target, buf, bufsize, t, src)                      \
@@ -1131,7 +1179,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         return err(dliteValueError, "missing dimension name: '%s'", src);
       dim->name = strndup(src + t->start, t->end - t->start);
       if ((t = jsmn_item(src, tokens, "description")))
-        dim->description = strndup(src + t->start, t->end - t->start);
+        dim->description = dup_jsonstring(src, t);
     }
     break;
 
@@ -1189,10 +1237,10 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       }
 
       if ((t = jsmn_item(src, tokens, "unit")))
-        prop->unit = strndup(src + t->start, t->end - t->start);
+        prop->unit = dup_jsonstring(src, t);
 
       if ((t = jsmn_item(src, tokens, "description")))
-        prop->description = strndup(src + t->start, t->end - t->start);
+        prop->description = dup_jsonstring(src, t);
     }
     break;
 
diff --git a/src/dlite-type.h b/src/dlite-type.h
index f2ffc54..202c821 100644
--- a/src/dlite-type.h
+++ b/src/dlite-type.h
@@ -231,7 +231,8 @@ void *dlite_type_clear(void *p, DLiteType dtype, size_t size);
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  If `prec` is -3, floats are
+  written with as many digits as needed to represent them exactly.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
-- 
2.43.0


From cc3af85add7bcf86b5364345868cfa0baa6807a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 011/100] fix: json storage: clean up after failing to open
 without touching uninitialised parts

---
 storages/json/dlite-json-storage.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 12c630e..5c77b6f 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -175,7 +175,10 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
 
  fail:
   if (optcopy) free(optcopy);
-  if (!retval && s) dlite_storage_close((DLiteStorage *)s);
+  if (!retval && s) {
+    if (s->jstore) jstore_close(s->jstore);
+    free(s);
+  }
 
   return retval;
 }
-- 
2.43.0


From 7872fa28ea1b4e6e9513553b478e674145338eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 012/100] fix: json storage: saving metadata together with
 other instances does not overwrite them

---
 storages/json/dlite-json-storage.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 5c77b6f..6567d2e 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -26,6 +26,7 @@ typedef struct {
   DLiteJsonFlag jflags; /* output flags */
   int fmt_given;        /* whether single/multi entity format is given */
   int changed;          /* whether the storage is changed */
+  DLiteInstance *single; /* metadata written in inferred single-entity format */
   map_uuid_t ids;       /* maps uuids to ids */
 } DLiteJsonStorage;
 
@@ -232,6 +233,7 @@ int json_close(DLiteStorage *s)
       stat = jstore_to_file(js->jstore, js->location);
     stat |= jstore_close(js->jstore);
   }
+  if (js->single) dlite_instance_decref(js->single);
   return stat;
 }
 
@@ -298,9 +300,16 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     FAILCODE1(dliteStorageSaveError,
               "storage \"%s\" is not writable", s->location);
 
-  /* If single/multi format is not given, infer it from `inst` */
-  if (!js->fmt_given && dlite_instance_is_meta(inst))
+  /* If single/multi format is not given, infer it from `inst` unless that
+     would overwrite other instances in this storage */
+  if (!js->fmt_given && dlite_instance_is_meta(inst) &&
+      !js->jstore && !js->single) {
     jflags |= dliteJsonSingle;
+    if (dlite_json_printfile(s->location, inst, jflags) <= 0) goto fail;
+    dlite_instance_incref((DLiteInstance *)inst);
+    js->single = (DLiteInstance *)inst;
+    return 0;
+  }
 
   if (jflags & dliteJsonSingle) {
     if (js->changed)
@@ -311,6 +320,11 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
     stat = (n > 0) ? 0 : 1;
   } else {
     if (!js->jstore && !(js->jstore = jstore_open())) goto fail;
+    if (js->single) {  // no longer a single instance
+      if (dlite_jstore_add(js->jstore, js->single, jflags)) goto fail;
+      dlite_instance_decref(js->single);
+      js->single = NULL;
+    }
     stat = dlite_jstore_add(js->jstore, inst, jflags);
   }
   js->changed = 1;
-- 
2.43.0


From 0df652792cc775f81b7f9d45fe157e2d604fb7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 013/100] fix: closing a shared storage reports flush errors
 and a failed open releases the driver's resources

---
 src/dlite-storage.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 64f07c9..97dc3e2 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -101,7 +101,11 @@ DLiteStorage *dlite_storage_open(const char *driver, const char *location,
   s->refcount = 1;
   return s;
  fail:
-  if (s) free(s);
+  if (s) {
+    api->close(s);
+    if (s->location) free(s->location);
+    free(s);
+  }
   err_update_eval(dliteStorageOpenError);
   return NULL;
 }
@@ -143,7 +147,7 @@ int dlite_storage_close(DLiteStorage *s)
   if (s->api->flush) stat = s->api->flush(s);
 
   /* Only free the storage when there are no more references to it. */
-  if (--s->refcount > 0) return 0;
+  if (--s->refcount > 0) return stat;
 
   if (s->flags & dliteReadable && s->flags & dliteGeneric)
     dlite_storage_hotlist_remove(s);
-- 
2.43.0


From 087f8da2550e316d02384b798cc863d36e8a806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 014/100] fix: report a missing storage plugin also when built
 without Python

---
 src/dlite-storage-plugins.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-storage-plugins.c b/src/dlite-storage-plugins.c
index f26fe85..02addd2 100644
--- a/src/dlite-storage-plugins.c
+++ b/src/dlite-storage-plugins.c
@@ -200,8 +200,8 @@ const DLiteStoragePlugin *dlite_storage_plugin_get(const char *name)
                    "   Are the %sDLITE_STORAGE_PLUGIN_DIRS or "
                    "DLITE_PYTHON_STORAGE_PLUGIN_DIRS\n"
                    "   environment variables set?", submsg);
-    errx(dliteStorageOpenError, "%s", buf);
 #endif
+    errx(dliteStorageOpenError, "%s", buf);
     free(buf);
 
   }
-- 
2.43.0


From 4bd13c33f2cb54297c053b00fcde7e41334d73f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 015/100] fix: hdf5: check that the shape of a dataset matches
 before reading into memory

---
 storages/hdf5/dh5lite.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index b656221..7568fcb 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -205,6 +205,7 @@ static int get_data(const DLiteDataModel *d, hid_t group,
   else if (dndims != (int)ndims) {
     DFAIL3(dliteIndexError, d, "trying to read '%s' with ndims=%d, but ndims=%d",
            name, (int)ndims, dndims);
+  } else {
     for (i=0; i<ndims; i++)
       if (ddims[i] != (hsize_t)((shape) ? shape[i] : 1))
         DFAIL4(dliteIndexError, d, "dimension %d of '%s': expected %d, got %d",
-- 
2.43.0


From b6e5c97354b4c803252651c12f62891f05e3005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 016/100] fix: hdf5: append creates a missing file and rw is
 writable, as documented

---
 storages/hdf5/dh5lite.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index 7568fcb..a306000 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -11,6 +11,7 @@
 
 #include "boolean.h"
 #include "utils/err.h"
+#include "utils/fileutils.h"
 
 #include "dlite.h"
 #include "dlite-datamodel.h"
@@ -446,7 +447,10 @@ dh5_open(const DLiteStoragePlugin *api, const char *uri, const char *options)
 
   s->flags |= dliteGeneric;
   if (strcmp(*mode, "append") == 0) {  /* default */
-    s->root = H5Fopen(uri, H5F_ACC_RDWR | H5F_ACC_CREAT, H5P_DEFAULT);
+    if (fu_exists(uri) == 0)
+      s->root = H5Fopen(uri, H5F_ACC_RDWR, H5P_DEFAULT);
+    else
+      s->root = H5Fcreate(uri, H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT);
     s->flags |= dliteReadable;
     s->flags |= dliteWritable;
   } else if (strcmp(*mode, "r") == 0) {
@@ -456,7 +460,7 @@ dh5_open(const DLiteStoragePlugin *api, const char *uri, const char *options)
   } else if (strcmp(*mode, "rw") == 0) {
     s->root = H5Fopen(uri, H5F_ACC_RDWR, H5P_DEFAULT);
     s->flags |= dliteReadable;
-    s->flags &= ~dliteWritable;
+    s->flags |= dliteWritable;
   } else if (strcmp(*mode, "w") == 0) {
     s->root = H5Fcreate(uri, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
     s->flags &= ~dliteReadable;
-- 
2.43.0


From 24441b5b534c670172f3d8a00932527927c5b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 017/100] fix: hdf5: report failure to save the metadata uri
 and close groups when a data model cannot be opened

---
 storages/hdf5/dh5lite.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index a306000..c7af71c 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -549,7 +549,13 @@ DLiteDataModel *dh5_datamodel(const DLiteStorage *s, const char *uuid)
 
   retval = (DLiteDataModel *)d;
  fail:
-  if (!retval && d) free(d);
+  if (!retval && d) {
+    if (d->properties > 0) H5Gclose(d->properties);
+    if (d->dimensions > 0) H5Gclose(d->dimensions);
+    if (d->meta > 0) H5Gclose(d->meta);
+    if (d->instance > 0) H5Gclose(d->instance);
+    free(d);
+  }
   return retval;
 }
 
@@ -641,20 +647,22 @@ int dh5_set_meta_uri(DLiteDataModel *d, const char *uri)
   size_t shape[1]={1};
   char *name, *version, *namespace;
 
+  int stat=0;
   if (dlite_split_meta_uri(uri, &name, &version, &namespace))
     return 1;
 
-  set_data(d, dh5->meta, "name", name, dliteFixString,
-           strlen(name), 1, shape);
-  set_data(d, dh5->meta, "version", version, dliteFixString,
-           strlen(version), 1, shape);
-  set_data(d, dh5->meta, "namespace", namespace, dliteFixString,
-           strlen(namespace), 1, shape);
+  if (set_data(d, dh5->meta, "name", name, dliteFixString,
+               strlen(name), 1, shape) ||
+      set_data(d, dh5->meta, "version", version, dliteFixString,
+               strlen(version), 1, shape) ||
+      set_data(d, dh5->meta, "namespace", namespace, dliteFixString,
+               strlen(namespace), 1, shape))
+    stat = 1;
 
   free(name);
   free(version);
   free(namespace);
-  return 0;
+  return stat;
 }
 
 
-- 
2.43.0


From 22d8eca0fcc9da11cd899383221bd933ce098427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 018/100] fix: a single-entity JSON file of an instance without
 URI contains its UUID

---
 src/dlite-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 2b5e63d..f16283e 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -93,7 +93,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   PRINT1("%s{\n", in);
   if (inst->uri)
     PRINT2("%s  \"uri\": \"%s\",\n", in, inst->uri);
-  if (flags & dliteJsonWithUuid)
+  if (flags & dliteJsonWithUuid || (flags & dliteJsonSingle && !inst->uri))
     PRINT2("%s  \"uuid\": \"%s\",\n", in, inst->uuid);
   if (flags & dliteJsonWithMeta ||
       dlite_instance_is_data(inst) ||
-- 
2.43.0


From 46399a48e4dcdd3e415cf1a24227ccaf0a972423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 019/100] fix: a failing instance creation neither leaks
 references nor removes another instance from the store

---
 src/dlite-entity.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index dce5e94..7db540f 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -59,7 +59,7 @@ typedef map_t(DLiteInstance *) instance_map_t;
 static instance_map_t *_instance_store(void);
 static void _instance_store_free(void *instance_store);
 static int _instance_store_add(const DLiteInstance *inst);
-static int _instance_store_remove(const char *id);
+static int _instance_store_remove(const DLiteInstance *inst);
 static DLiteInstance *_instance_store_get(const char *id);
 
 
@@ -143,20 +143,19 @@ static int _instance_store_add(const DLiteInstance *inst)
   return 0;
 }
 
-/* Removes instance `uuid` from global instance store.  Returns non-zero
-   on error.*/
-static int _instance_store_remove(const char *uuid)
+/* Removes instance `inst` from global instance store.  Returns non-zero
+   if `inst` is not in the store (another instance with the same uuid is
+   left untouched). */
+static int _instance_store_remove(const DLiteInstance *inst)
 {
   instance_map_t *istore = _instance_store();
-  DLiteInstance *inst, **q;
+  DLiteInstance **q;
   assert(istore);
-  if (!(q = map_get(istore, uuid)))
-    return errx(dliteMissingInstanceError, "cannot remove %s since it is not in store", uuid);
-  inst = *q;
-  map_remove(istore, uuid);
+  if (!(q = map_get(istore, inst->uuid)) || *q != inst) return 1;
+  map_remove(istore, inst->uuid);
 
   if (dlite_instance_is_meta(inst) && inst->_refcount > 0)
-    dlite_instance_decref(inst);
+    dlite_instance_decref((DLiteInstance *)inst);
   return 0;
 }
 
@@ -424,17 +423,25 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
   /* Check if we are trying to create an instance with an already
      existing id. */
   if (lookup && id && *id && (inst = _instance_store_get(id))) {
-    dlite_instance_incref(inst);
-    warn("trying to create new instance with id '%s' - creates a new "
-        "reference instead (refcount=%d)", id, inst->_refcount);
+
+    /* Check that the existing instance has the requested metadata. */
+    if (inst->meta != meta &&
+        (!inst->meta->uri || !meta->uri || strcmp(inst->meta->uri, meta->uri)))
+      return errx(dliteValueError, "cannot create instance '%s' of '%s', since "
+                  "there exists already an instance of '%s' with this id",
+                  id, meta->uri, inst->meta->uri), NULL;
 
     /* Check that `dims` corresponds to the dims of the existing instance. */
     for (i=0; i < meta->_ndimensions; i++) {
       if (dims[i] != dlite_instance_get_dimension_size_by_index(inst, i))
-        FAILCODE3(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
+        return errx(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
               "but existing instance has size %d", (int)i, (int)dims[i],
-              (int)dlite_instance_get_dimension_size_by_index(inst, i));
+              (int)dlite_instance_get_dimension_size_by_index(inst, i)), NULL;
     }
+
+    dlite_instance_incref(inst);
+    warn("trying to create new instance with id '%s' - creates a new "
+        "reference instead (refcount=%d)", id, inst->_refcount);
     return inst;
   }
 
@@ -557,7 +564,6 @@ DLiteInstance *dlite_instance_create_from_id(const char *metaid,
 static int dlite_instance_free(DLiteInstance *inst)
 {
   size_t i, nprops;
-  int stat;
   const DLiteMeta *meta = inst->meta;
   assert(meta);
 
@@ -565,7 +571,7 @@ static int dlite_instance_free(DLiteInstance *inst)
   if (meta->_deinit) meta->_deinit(inst);
 
   /* Remove from instance cache */
-  stat = _instance_store_remove(inst->uuid);
+  _instance_store_remove(inst);
 
   /* For transactions, decrease refcount of parent */
   if (inst->_parent) {
@@ -601,7 +607,7 @@ static int dlite_instance_free(DLiteInstance *inst)
   free(inst);
 
   dlite_meta_decref((DLiteMeta *)meta);  /* decrease metadata refcount */
-  return stat;
+  return 0;
 }
 
 
-- 
2.43.0


From 3175ebcbeabc061cdd2ff6f4f83738955cb1a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 020/100] fix: malformed JSON objects are reported as parse
 errors instead of aborting or reading past the parsed tokens

---
 src/utils/jsmnx.c | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index aa3831a..6082689 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -19,6 +19,38 @@
 #include "jsmn.h"
 #include "jsmnx.h"
 
+/*
+  Help function for checking the structure of parsed tokens, since
+  jsmn_parse() accepts objects with missing keys or values.
+
+  `t` points to the first of `n` remaining tokens.
+
+  Returns number of tokens (including sub-tokens) that belong to `t` or
+  JSMN_ERROR_INVAL if `t` is not valid JSON.
+ */
+static int check_structure(const jsmntok_t *t, int n)
+{
+  int i, m, count=1;
+  if (n < 1) return JSMN_ERROR_INVAL;
+  switch (t->type) {
+  case JSMN_OBJECT:
+  case JSMN_ARRAY:
+    for (i=0; i < t->size; i++) {
+      if (t->type == JSMN_OBJECT) {
+        if (count >= n || t[count].type != JSMN_STRING || t[count].size != 1)
+          return JSMN_ERROR_INVAL;  // key must be a string with one value
+        count++;
+      }
+      if ((m = check_structure(t + count, n - count)) < 0) return m;
+      count += m;
+    }
+    return count;
+  default:
+    return (t->size == 0) ? 1 : JSMN_ERROR_INVAL;
+  }
+}
+
+
 /*
   Like jsmn_parse(), but realloc's the buffer pointed to by `tokens_ptr`
   if it is too small.  `num_tokens_ptr` should point to the number of
@@ -50,6 +82,8 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
     jsmn_parser saved_parser;
     memcpy(&saved_parser, parser, sizeof(saved_parser));
     ntokens = jsmn_parse(parser, js, len, *tokens_ptr, *num_tokens_ptr);
+    if (ntokens > 0 && check_structure(*tokens_ptr, ntokens) < 0)
+      return JSMN_ERROR_INVAL;
     if (ntokens != JSMN_ERROR_NOMEM) return ntokens;
 
     // Try to handle JSMN_ERROR_NOMEM by reallocating
@@ -65,6 +99,8 @@ int jsmn_parse_alloc(jsmn_parser *parser, const char *js, const size_t len,
 
   ntokens = jsmn_parse(parser, js, len, tokens, ntokens);
   assert(ntokens != JSMN_ERROR_NOMEM);
+  if (ntokens > 0 && check_structure(tokens, ntokens) < 0)
+    return JSMN_ERROR_INVAL;
   return ntokens;
 }
 
-- 
2.43.0


From d9c5ca518b25ee4b617149c965a5c1dfc150cb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 021/100] fix: loading through the datamodel api: room for the
 terminating NUL of a uuid and no leaked references on failure

---
 src/dlite-entity.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 7db540f..78bb4db 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -913,7 +913,7 @@ DLiteInstance *dlite_instance_load_url(const char *url)
 DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
                                      const char *metaid, int lookup)
 {
-  DLiteMeta *meta;
+  DLiteMeta *meta=NULL;
   DLiteInstance *inst=NULL, *instance=NULL;
   DLiteDataModel *d=NULL;
   size_t i, *dims=NULL;
@@ -933,10 +933,12 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   /* check if storage implements the instance api */
   if (s->api->loadInstance) {
     if (!(inst = dlite_storage_load(s, id))) goto fail;
-    if (metaid)
-      return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-    else
-      return inst;
+    if (metaid) {
+      instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
+      dlite_instance_decref(inst);
+      return instance;
+    }
+    return inst;
   }
 
   /* create datamodel and get metadata uri */
@@ -950,8 +952,8 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
 
   /* ...otherwise try to load it from storage */
   if (!meta) {
-    char uuid[DLITE_UUID_LENGTH];
-    dlite_get_uuid(uuid, uri);
+    char uuid[DLITE_UUID_LENGTH+1];
+    if (dlite_get_uuid(uuid, uri) < 0) goto fail;
     meta = (DLiteMeta *)dlite_instance_load(s, uuid);
   }
 
@@ -992,10 +994,8 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
     void *ptr = (void *)dlite_instance_get_property_by_index(inst, i);
     size_t *pdims = DLITE_PROP_DIMS(inst, i);
     if (dlite_datamodel_get_property(d, p->name, ptr, p->type, p->size,
-				     p->ndims, pdims)) {
-      dlite_type_clear(ptr, p->type, p->size);
+				     p->ndims, pdims))
       goto fail;
-    }
   }
 
   /* initiates metadata of the new instance is metadata */
@@ -1020,15 +1020,21 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   }
 
   /* cast if `metaid` is not NULL */
-  if (inst && metaid)
+  if (inst && metaid) {
     instance = dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
+    dlite_instance_decref(inst);
+  } else {
     instance = inst;
+  }
+  inst = NULL;
+  meta = NULL;
 
  fail:
-  if (!inst && !err_geteval())
-    err(dliteIOError, "cannot load id '%s' from storage '%s'", id, s->location);
-  if (!instance && inst) dlite_instance_decref(inst);
+  if (!instance && !err_geteval())
+    err(dliteIOError, "cannot load id '%s' from storage '%s'", id,
+        (s) ? s->location : "");
+  if (inst) dlite_instance_decref(inst);
+  else if (!instance && meta) dlite_meta_decref(meta);
   if (d) dlite_datamodel_free(d);
   if (uri) free((char *)uri);
   if (dims) free(dims);
-- 
2.43.0


From cb4f0ef43b725cd94a0df1c71da9bd3f3d9a3ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 022/100] fix: parsing a JSON instance: no use after free on
 failure, validate uuid and sizes, existing instances are not overwritten when
 loaded without id

---
 src/dlite-json.c | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index f16283e..5005653 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -601,7 +601,7 @@ static int get_meta_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
 static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
                                      const char *id)
 {
-  int ok=0;
+  int ok=0, stat;
   const jsmntok_t *item, *t;
   char *buf=NULL, *uri=NULL, *metauri=NULL, uuid[DLITE_UUID_LENGTH+1];
   size_t i, *dims=NULL;
@@ -610,19 +610,21 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   jsmntype_t dimtype = 0;
   char *name=NULL, *version=NULL, *namespace=NULL;
 
-  assert(obj->type == JSMN_OBJECT);
+  if (obj->type != JSMN_OBJECT)
+    FAILCODE1(dliteParseError, "instance is not a json object: %s",
+              (id) ? id : "(no id)");
 
   /* If instance already exists, return it immediately */
-  if (id && dlite_instance_has(id, 0))
+  if (id && *id && dlite_instance_has(id, 0))
       return dlite_instance_get(id);
 
   /* Get uri and uuid */
-  uri = get_uri(src, obj);
-  if (!uri && (item = jsmn_item(src, obj, "uuid"))) {
-    strncpy(uuid, src + item->start, DLITE_UUID_LENGTH);
-    uuid[DLITE_UUID_LENGTH] = '\0';
-  } else {
-    if (dlite_get_uuid(uuid, (uri) ? uri : id) < 0) goto fail;
+  if ((uri = get_uri(src, obj))) {
+    if (dlite_get_uuid(uuid, uri) < 0) goto fail;
+  } else if ((stat = get_uuid(uuid, src, obj)) < 0) {
+    goto fail;
+  } else if (stat) {
+    if (dlite_get_uuid(uuid, id) < 0) goto fail;
   }
 
   /* Check id */
@@ -633,9 +635,15 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       dlite_warn("Instance \"%s\" include an URI \"%s\" whos UUID (%s) is "
                  "inconsistent with the instance UUID (%s). "
                  "This may be due to the namespacedID behavior change. "
-                 "Ignoring the URI.", id, uri, uuid, uuid2);
+                 "Ignoring the URI.", id, (uri) ? uri : "", uuid, uuid2);
+      free(uri);
       uri = NULL;
     }
+  } else if (dlite_instance_has(uuid, 0)) {
+    free(uri);
+    return dlite_instance_get(uuid);
+  } else {
+    id = uuid;
   }
   if (uri) id = uri;
 
@@ -681,10 +689,10 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
           DLiteDimension *d = meta->_dimensions + i;
           if (!(t = jsmn_item(src, item, d->name)))
             FAIL2("missing dimension \"%s\" in %s", d->name, id);
-          if (t->type == JSMN_PRIMITIVE)
+          if (t->type == JSMN_PRIMITIVE && isdigit(src[t->start]))
             dims[i] = atoi(src + t->start);
           else
-            FAIL3("value '%.*s' of dimension should be an integer: %s",
+            FAIL3("value '%.*s' of dimension should be a non-negative integer: %s",
                   t->end-t->start, src+t->start, id);
         }
       } else {
@@ -706,14 +714,14 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
 
     /* -- `base` is the base object to read properties from */
     base = (dlite_instance_is_data(inst)) ? item : obj;
+    if (base->type != JSMN_OBJECT)
+      FAIL1("\"properties\" must be a json object: %s", id);
     //if (item->type == JSMN_OBJECT)
     //  base = item;
     //else if (item->type == JSMN_ARRAY)
     //  base = obj;
     //else
     //  FAIL1("\"properties\" must be object or array: %s", id);
-    assert(base->type == JSMN_OBJECT);
-
     /* -- infer name, version and namespace */
     if (dlite_instance_is_meta(inst)) {
       if (uri && dlite_split_meta_uri(uri, &name, &version, &namespace))
@@ -779,8 +787,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   if (uri) free(uri);
   if (metauri) free(metauri);
   if (!ok && inst) {
-    /* Metadata has an extra refcount, so loop until refcount is zero */
-    while (inst->_refcount)
+    /* Metadata has an extra refcount for being in the instance store */
+    if (!dlite_instance_is_meta(inst) || dlite_instance_decref(inst) > 0)
       dlite_instance_decref(inst);
     inst = NULL;
   }
@@ -817,6 +825,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, src, srclen, &tokens, &ntokens);
   if (r < 0) FAIL1("error parsing json: %s", jsmn_strerror(r));
+  if (r == 0) FAIL("empty json input");
   root = tokens;
   if (root->type != JSMN_OBJECT) FAIL("json root should be an object");
 
@@ -864,7 +873,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   if (metaid) {
     char uuid[DLITE_UUID_LENGTH + 1];
     if (dlite_get_uuid(uuid, metaid) < 0 ||
-        (strcmp(metaid, uuid) != 0 && strcmp(metaid, inst->meta->uri) != 0)) {
+        (strcmp(uuid, inst->meta->uuid) != 0 &&
+         strcmp(metaid, inst->meta->uri) != 0)) {
       if (!id) id = inst->uuid;
       err(1, "instance '%s' has meta id '%s' but '%s' is expected",
           id, inst->meta->uri, metaid);
-- 
2.43.0


From 45288b33fd1010b1dcc05cbd7964b9cca684bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 023/100] fix: errors detected when a dataset or data model is
 closed are reported when saving

---
 src/dlite-entity.c      | 2 +-
 storages/hdf5/dh5lite.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 78bb4db..7edc005 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1095,7 +1095,7 @@ int dlite_instance_save(DLiteStorage *s, const DLiteInstance *inst)
   }
   retval = 0;
  fail:
-  if (d) dlite_datamodel_free(d);
+  if (d && dlite_datamodel_free(d)) retval = 1;
   return retval;
 }
 
diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index c7af71c..ae51a5b 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -332,7 +332,9 @@ static int set_data(DLiteDataModel *d, hid_t group,
 
   retval = 0;
  fail:
-  if (dset > 0) H5Dclose(dset);
+  /* data may be flushed to disk first when the dataset is closed */
+  if (dset > 0 && H5Dclose(dset) < 0 && retval == 0)
+    retval = err(dliteIOError, "cannot write dataset '%s'", name);
   if (space > 0) H5Sclose(space);
   if (memtype > 0) H5Tclose(memtype);
   return retval;
-- 
2.43.0


From 362153095ae729a3d39cc68ad2a4c04e99d4bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 024/100] fix: failing to open a single-entity JSON file for
 writing is reported as an error

---
 src/dlite-json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 5005653..3ddf36b 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -451,7 +451,7 @@ int dlite_json_printfile(const char *filename, const DLiteInstance *inst,
   FILE *fp;
   int m;
   if (!(fp = fopen(filename, "wt")))
-    return err(1, "cannot write json to \"%s\"", filename);
+    return err(dliteIOError, "cannot write json to \"%s\"", filename);
   m = dlite_json_fprint(fp, inst, 0, flags);
   if (fclose(fp) && m >= 0)
     m = err(dliteIOError, "error writing json to \"%s\"", filename);
-- 
2.43.0


From e4b66d7933c29835c10ba34f849e47b927873588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:27 +0000
Subject: [PATCH 025/100] fix: add the UUID only to single-entity JSON files

---
 src/dlite-json.c                   | 2 +-
 storages/json/dlite-json-storage.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 3ddf36b..be2c567 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -93,7 +93,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   PRINT1("%s{\n", in);
   if (inst->uri)
     PRINT2("%s  \"uri\": \"%s\",\n", in, inst->uri);
-  if (flags & dliteJsonWithUuid || (flags & dliteJsonSingle && !inst->uri))
+  if (flags & dliteJsonWithUuid)
     PRINT2("%s  \"uuid\": \"%s\",\n", in, inst->uuid);
   if (flags & dliteJsonWithMeta ||
       dlite_instance_is_data(inst) ||
diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 6567d2e..ae68dd9 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -316,6 +316,7 @@ int json_save(DLiteStorage *s, const DLiteInstance *inst)
       FAILCODE1(dliteStorageSaveError,
                 "Trying to save more than once in single-entity format: %s",
                 s->location);
+    if (!inst->uri) jflags |= dliteJsonWithUuid;  // ensure it can be loaded
     int n = dlite_json_printfile(s->location, inst, jflags);
     stat = (n > 0) ? 0 : 1;
   } else {
-- 
2.43.0


From 5ecaefdfa9fec352028c07d319bea9a42a08f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 026/100] fix: loaded instances get the default uri only if it
 refers to the same uuid

---
 src/dlite-entity.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 7edc005..2b9e701 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1015,7 +1015,15 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
              id, s->location);
       }
     } else {
+      /* Skip the default uri if it doesn't refer to this instance, which is
+         the case if the metadata uri isn't a valid url. */
+      char uuid[DLITE_UUID_LENGTH+1];
       inst->uri = dlite_instance_default_uri(inst);
+      if (inst->uri && (dlite_get_uuid(uuid, inst->uri) < 0 ||
+                        strcmp(uuid, inst->uuid) != 0)) {
+        free((char *)inst->uri);
+        inst->uri = NULL;
+      }
     }
   }
 
-- 
2.43.0


From 9235846bf0d4a0f8fe2ad25b3f1c5fdc521b1b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 027/100] fix: report allocation failure in infixcalc() instead
 of aborting

---
 src/utils/infixcalc.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index a394f92..bd6abb5 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -153,16 +153,18 @@ static const InfixCalcVariable *get_variable(const char *str,
 }
 
 
-/* Push `item` to `stack`. */
-static void push(Stack *stack, int item)
+/* Push `item` to `stack`.  Returns non-zero on allocation failure. */
+static int push(Stack *stack, int item)
 {
   //printf("  + push %d (%c)\n", item, isgraph(item) ? item : ' ');
   if (stack->size <= stack->len) {
+    void *ptr = realloc(stack->items, (stack->size + CHUNKSIZE)*sizeof(item));
+    if (!ptr) return -1;
+    stack->items = ptr;
     stack->size += CHUNKSIZE;
-    stack->items = realloc(stack->items, stack->size*sizeof(item));
-    assert(stack->items);
   }
   stack->items[stack->len++] = item;
+  return 0;
 }
 
 /* Pop an item from `stack`. */
@@ -260,7 +262,10 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
              (unsigned long)opinfo->nargs);
     return -1;
   }
-  push(vstack, value);
+  if (push(vstack, value)) {
+    snprintf(err, errlen, "allocation failure");
+    return -1;
+  }
   return 0;
 }
 
@@ -300,13 +305,13 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
     }
     switch (token.type) {
     case typeVal:
-      push(&vstack, token.u.val);
+      if (push(&vstack, token.u.val)) goto memfail;
       break;
 
     case typeOp:
       switch (token.u.op) {
       case '(':
-        push(&ostack, token.u.op);
+        if (push(&ostack, token.u.op)) goto memfail;
         break;
       case ')':
         while ((op = pop(&ostack)) != '(') {
@@ -326,7 +331,7 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
           op = pop(&ostack);
           if (eval(op, &vstack, err, errlen)) goto fail;
         }
-        push(&ostack, token.u.op);
+        if (push(&ostack, token.u.op)) goto memfail;
         break;
       }
     }
@@ -354,6 +359,10 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   if (vstack.size) free(vstack.items);
   if (ostack.size) free(ostack.items);
   return result;
+
+ memfail:
+  snprintf(err, errlen, "allocation failure");
+  goto fail;
 }
 
 
-- 
2.43.0


From 8f51e70b8e7eb8f554ed73f3b8c319239e65f53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:09 +0000
Subject: [PATCH 028/100] fix: invalid or negative dimension expressions are
 errors, and never abort

---
 src/dlite-entity.c    | 16 ++++++++++++----
 src/utils/infixcalc.c |  8 +++++++-
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 2b9e701..677daf4 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -393,10 +393,18 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
     DLiteProperty *p = meta->_properties + i;
     int j;
     char errmsg[256] = "";
-    for (j=0; j < p->ndims; j++)
-      propdims[n++] = infixcalc(p->shape[j], vars, meta->_ndimensions,
-                                errmsg, sizeof(errmsg));
-    if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+    for (j=0; j < p->ndims; j++) {
+      int v = infixcalc(p->shape[j], vars, meta->_ndimensions,
+                        errmsg, sizeof(errmsg));
+      if (errmsg[0])
+        FAILCODE1(dliteSyntaxError,
+                  "invalid property dimension expression: %s", errmsg);
+      if (v < 0)
+        FAILCODE2(dliteIndexError,
+                  "property dimension expression \"%s\" evaluates to "
+                  "negative size: %d", p->shape[j], v);
+      propdims[n++] = v;
+    }
   }
   assert(n == meta->_npropdims);
 
diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index bd6abb5..340cc57 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -256,6 +256,11 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
   if (opinfo->nargs == 2) {
     int arg2 = pop(vstack);
     int arg1 = pop(vstack);
+    if ((op == '/' || op == '%') &&
+        (arg2 == 0 || (arg2 == -1 && arg1 == INT_MIN))) {
+      snprintf(err, errlen, "division by zero");
+      return -1;
+    }
     value = binary_eval(op, arg1, arg2);
   } else {
     snprintf(err, errlen, "%lu-ary operators are not implemented",
@@ -314,12 +319,13 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
         if (push(&ostack, token.u.op)) goto memfail;
         break;
       case ')':
-        while ((op = pop(&ostack)) != '(') {
+        while (1) {
           if (!ostack.len) {
             snprintf(err, errlen,
                      "missing start parenthesis in expression \"%s\"", expr);
             goto fail;
           }
+          if ((op = pop(&ostack)) == '(') break;
           if (eval(op, &vstack, err, errlen)) goto fail;
         }
         break;
-- 
2.43.0


From 310e9de61451650ef1a549c6d9c59d42eb03db47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 029/100] fix: a failing instance creation leaves nothing
 half-created behind

---
 src/dlite-entity.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 677daf4..62bac70 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -134,7 +134,8 @@ static int _instance_store_add(const DLiteInstance *inst)
   assert(istore);
   assert(inst);
   if (map_get(istore, inst->uuid)) return 1;
-  map_set(istore, inst->uuid, (DLiteInstance *)inst);
+  if (map_set(istore, inst->uuid, (DLiteInstance *)inst))
+    return err(dliteMemoryError, "allocation failure");
 
   /* Increase reference  count for metadata that is kept in the store */
   if (dlite_instance_is_meta(inst))
@@ -463,10 +464,11 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
   dlite_instance_incref(inst);  /* increase refcount of the new instance */
 
   /* Initialise header */
+  inst->meta = (DLiteMeta *)meta;
   if ((idtype = dlite_get_uuid(uuid, id)) < 0) goto fail;
   memcpy(inst->uuid, uuid, sizeof(uuid));
-  if (idtype == dliteIdHash) inst->uri = strdup(id);
-  inst->meta = (DLiteMeta *)meta;
+  if (idtype == dliteIdHash && !(inst->uri = strdup(id)))
+    FAILCODE(dliteMemoryError, "allocation failure");
 
   /* Set dimensions */
   if (meta->_ndimensions) {
@@ -486,7 +488,8 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
       for (j=0; j<p->ndims; j++)
         nmemb *= DLITE_PROP_DIM(inst, i, j);
       if (nmemb > 0) {
-        if (!(*ptr = calloc(nmemb, size))) goto fail;
+        if (!(*ptr = calloc(nmemb, size)))
+          FAILCODE(dliteMemoryError, "allocation failure");
       } else {
         *ptr = NULL;
       }
-- 
2.43.0


From c632942eb2f8a7df83226058c7e1b37274a8bedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 030/100] fix: free the right strings when listing the instance
 store fails

---
 src/dlite-entity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 62bac70..52334c4 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -358,7 +358,7 @@ char** dlite_istore_get_uuids(int* nuuids)
 
  fail:
   if (uuids) {
-    for (i=0; uuid[i]; i++) free(uuids[i]);
+    for (i=0; uuids[i]; i++) free(uuids[i]);
     free(uuids);
   }
   return NULL;
-- 
2.43.0


From 3d90e3457877067be19910c27071fa16b0c32bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 031/100] fix: a refused dlite_meta_create() no longer releases
 a reference it doesn't own

---
 src/dlite-entity.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 52334c4..2fe9d48 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2582,13 +2582,14 @@ dlite_meta_create(const char *uri, const char *description,
                   size_t nproperties, const DLiteProperty *properties)
 {
   DLiteMeta *entity=NULL;
-  DLiteInstance *e=NULL;
+  DLiteInstance *e=NULL, *existing;
   char *name=NULL, *version=NULL, *namespace=NULL;
   size_t dims[] = {ndimensions, nproperties};
 
-  if ((e = dlite_instance_has(uri, 0))) {
-    DLiteMeta *meta = (DLiteMeta *)e;
-    if (!dlite_instance_is_meta(e))
+  /* Note: `existing` is a borrowed reference */
+  if ((existing = dlite_instance_has(uri, 0))) {
+    DLiteMeta *meta = (DLiteMeta *)existing;
+    if (!dlite_instance_is_meta(existing))
       FAILCODE1(dliteMetadataExistError,
                 "cannot create metadata \"%s\" since it already exists as a "
                 "non-metadata instance", uri);
-- 
2.43.0


From 073e99bed233031731b281669b10e08dafb40429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 032/100] fix: release the loaded instance if it turns out not
 to be metadata

---
 src/dlite-entity.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 2fe9d48..acfdab3 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2805,8 +2805,10 @@ DLiteMeta *dlite_meta_load(const DLiteStorage *s, const char *id)
 {
   DLiteInstance *inst = dlite_instance_load(s, id);
   if (!inst) return NULL;
-  if (!dlite_instance_is_meta(inst))
+  if (!dlite_instance_is_meta(inst)) {
+    dlite_instance_decref(inst);
     return err(dliteTypeError, "not metadata: %s (%s)", s->location, id), NULL;
+  }
   return (DLiteMeta *)inst;
 }
 
@@ -2818,8 +2820,10 @@ DLiteMeta *dlite_meta_load_url(const char *url)
 {
   DLiteInstance *inst;
   if (!(inst = dlite_instance_load_url(url))) return NULL;
-  if (!dlite_instance_is_meta(inst))
+  if (!dlite_instance_is_meta(inst)) {
+    dlite_instance_decref(inst);
     return err(dliteTypeError, "not metadata: %s", url), NULL;
+  }
   return (DLiteMeta *)inst;
 }
 
-- 
2.43.0


From 190e5bc62c7e35139584280941416980c5f001c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 033/100] fix: report allocation failure when adding a global
 state

---
 src/utils/session.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/session.c b/src/utils/session.c
index b32af67..de3b85d 100644
--- a/src/utils/session.c
+++ b/src/utils/session.c
@@ -188,7 +188,8 @@ int session_add_state(Session *s, const char *name, void *ptr,
   st.free_fun = free_fun;
   if (map_get(&s->states, name))
     return errx(1, "cannot create existing state: %s", name);
-  map_set(&s->states, name, st);
+  if (map_set(&s->states, name, st))
+    return err(-12, "allocation failure");
   sp = map_get(&s->states, name);
   assert(sp);
   assert(memcmp(sp, &st, sizeof(st)) == 0);
-- 
2.43.0


From addaf3d26462d277f02b6b19695b6851a35be3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 034/100] fix: failing to list a path is an error, not an
 assertion failure

---
 src/utils/fileutils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 467feae..f06ab21 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -1402,13 +1402,14 @@ const char *_fu_pathsiter_next(FUIter *iter)
        Note that we are calling opendir() directly, to avoid errors if
        `path` is not a directory. */
     if ((iter->dir = opendir(path))) {
-      iter->dirname = strdup(path);
+      if (!(iter->dirname = strdup(path)))
+        return err(1, "allocation failure"), NULL;
       continue;
     }
 
     /* Check if `path` is a glob pattern... */
     if ((iter->globiter = fu_glob(path, iter->paths->pathsep))) continue;
-    assert(0);  /* this should never be reached */
+    return err(1, "cannot list path: %s", path), NULL;
   }
   return NULL;
 }
-- 
2.43.0


From 40e3c07a72e1af85e6f89e832007b395f0154095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 035/100] fix: instances with empty array properties can be
 copied

---
 src/dlite-entity.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index acfdab3..f16a395 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1950,7 +1950,15 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   }
   for (i=0; i < inst->meta->_nproperties; i++) {
     void *src = dlite_instance_get_property_by_index(inst, i);
-    assert(src);
+    if (!src) {
+      /* NULL is only expected for arrays with no elements */
+      int j;
+      size_t nmemb=1;
+      for (j=0; j < inst->meta->_properties[i].ndims; j++)
+        nmemb *= DLITE_PROP_DIM(inst, i, j);
+      if (nmemb) goto fail;
+      continue;
+    }
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
   }
   return new;
-- 
2.43.0


From 9c23ffcc77c7a2052d6d781617dfb627c3c86078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 036/100] fix: copying dimensions, properties and relations
 handles missing strings and allocation failures

---
 src/dlite-type.c | 72 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 6a4fd61..b865123 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -551,6 +551,14 @@ int dlite_type_is_allocated(DLiteType dtype)
   abort();  /* should never be reached */
 }
 
+/* Copies string `src`, that may be NULL, to newly allocated string `*dest`.
+   Returns non-zero on allocation failure. */
+static int copy_string(char **dest, const char *src)
+{
+  *dest = (src) ? strdup(src) : NULL;
+  return src && !*dest;
+}
+
 /*
   Copies value of given dtype from `src` to `dest`.  If the dtype contains
   allocated data, new memory will be allocated for `dest`.
@@ -586,42 +594,58 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
     break;
   case dliteDimension:
     {
-      DLiteDimension *d=dest;
+      DLiteDimension *d=dest, v;
       const DLiteDimension *s=src;
-      d->name = strdup(s->name);
-      d->description = strdup(s->description);
+      int stat=0;
+      memset(&v, 0, sizeof(v));
+      stat |= copy_string(&v.name, s->name);
+      stat |= copy_string(&v.description, s->description);
+      if (stat) {
+        dlite_type_clear(&v, dtype, sizeof(v));
+        return err(dliteMemoryError, "allocation failure"), NULL;
+      }
+      *d = v;
     }
     break;
   case dliteProperty:
     {
-      DLiteProperty *d=dest;
+      DLiteProperty *d=dest, v;
       const DLiteProperty *s=src;
-      d->name = strdup(s->name);
-      d->type = s->type;
-      d->size = s->size;
-      if (s->ref) d->ref = strdup(s->ref);
-      d->ndims = s->ndims;
-      if (d->ndims) {
-        int i;
-        if (!(d->shape = malloc(d->ndims*sizeof(char *))))
-          return err(dliteMemoryError, "allocation failure"), NULL;
-        for (i=0; i<d->ndims; i++)
-          d->shape[i] = strdup(s->shape[i]);
-      } else {
-        d->shape = NULL;
+      int i, stat=0;
+      memset(&v, 0, sizeof(v));
+      stat |= copy_string(&v.name, s->name);
+      v.type = s->type;
+      v.size = s->size;
+      stat |= copy_string(&v.ref, s->ref);
+      v.ndims = s->ndims;
+      if (v.ndims && !(v.shape = calloc(v.ndims, sizeof(char *)))) stat = 1;
+      for (i=0; v.shape && i<v.ndims; i++)
+        stat |= copy_string(v.shape + i, s->shape[i]);
+      stat |= copy_string(&v.unit, s->unit);
+      stat |= copy_string(&v.description, s->description);
+      if (stat) {
+        dlite_type_clear(&v, dtype, sizeof(v));
+        return err(dliteMemoryError, "allocation failure"), NULL;
       }
-      d->unit = (s->unit) ? strdup(s->unit) : NULL;
-      d->description = (s->description) ? strdup(s->description) : NULL;
+      *d = v;
     }
     break;
   case dliteRelation:
     {
-      DLiteRelation *d=dest;
+      DLiteRelation *d=dest, v;
       const DLiteRelation *s=src;
-      d->s = strdup(s->s);
-      d->p = strdup(s->p);
-      d->o = strdup(s->o);
-      d->id = (s->id) ? strdup(s->id) : NULL;
+      int stat=0;
+      memset(&v, 0, sizeof(v));
+      stat |= copy_string(&v.s, s->s);
+      stat |= copy_string(&v.p, s->p);
+      stat |= copy_string(&v.o, s->o);
+      stat |= copy_string(&v.d, s->d);
+      stat |= copy_string(&v.id, s->id);
+      if (stat) {
+        dlite_type_clear(&v, dtype, sizeof(v));
+        return err(dliteMemoryError, "allocation failure"), NULL;
+      }
+      *d = v;
     }
     break;
   }
-- 
2.43.0


From 3f825203092854c69d89c9e3c8f81886b4e07d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:22 +0000
Subject: [PATCH 037/100] fix: setting a property is all or nothing and takes
 its own references to instances

---
 src/dlite-entity.c | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index f16a395..888b0e1 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1353,6 +1353,10 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
   size_t nmemb=1;
   int j;
 
+  if (i >= meta->_nproperties)
+    return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
+		(int)i, (int)meta->_nproperties, meta->uri);
+
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
                (inst->uri) ? inst->uri : inst->uuid);
@@ -1367,35 +1371,43 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
       size_t n;
       DLiteInstance **q = (DLiteInstance **)ptr;
       for (n=0; n<nmemb; n++, q++) {
-        const char *ref = (*q)->meta->uri;
-        if (strcmp(ref, p->ref))
+        const char *ref = (*q) ? (*q)->meta->uri : NULL;
+        if (ref && strcmp(ref, p->ref))
           return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                      p->ref, ref);
       }
     } else {
-      const char *ref = (*(DLiteInstance **)ptr)->meta->uri;
-      if (strcmp(ref, p->ref))
+      DLiteInstance *q = *(DLiteInstance **)ptr;
+      const char *ref = (q) ? q->meta->uri : NULL;
+      if (ref && strcmp(ref, p->ref))
         return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                    p->ref, ref);
     }
   }
 
   /* Copy */
-  if (p->ndims > 0) {
+  dest = (p->ndims > 0) ? *((void **)DLITE_PROP(inst, i)) : DLITE_PROP(inst, i);
+  if (nmemb && dlite_type_is_allocated(p->type)) {
+    /* First copy all elements, such that nothing is changed on failure */
     size_t n;
-    dest = *((void **)DLITE_PROP(inst, i));
-    if (dlite_type_is_allocated(p->type)) {
-      for (n=0; n<nmemb; n++) {
-        void *v = (char *)ptr + n*p->size;
-        if (!dlite_type_copy((char *)dest + n*p->size,
-                             v, p->type, p->size)) return -1;
+    char *buf = calloc(nmemb, p->size);
+    if (!buf) return err(dliteMemoryError, "allocation failure");
+    for (n=0; n<nmemb; n++) {
+      if (!dlite_type_copy(buf + n*p->size, (char *)ptr + n*p->size,
+                           p->type, p->size)) {
+        while (n--) dlite_type_clear(buf + n*p->size, p->type, p->size);
+        free(buf);
+        return -1;
       }
-    } else if (nmemb) {
-      memcpy(dest, ptr, nmemb*p->size);
+      if (p->type == dliteRef && *(DLiteInstance **)(buf + n*p->size))
+        dlite_instance_incref(*(DLiteInstance **)(buf + n*p->size));
     }
-  } else {
-    dest = DLITE_PROP(inst, i);
-    if (!dlite_type_copy(dest, ptr, p->type, p->size)) return -1;
+    for (n=0; n<nmemb; n++)
+      dlite_type_clear((char *)dest + n*p->size, p->type, p->size);
+    memcpy(dest, buf, nmemb*p->size);
+    free(buf);
+  } else if (nmemb) {
+    memcpy(dest, ptr, nmemb*p->size);
   }
 
   if (inst->meta->_setdim &&
-- 
2.43.0


From 14f984a49a0202c055ca0a43516c99faf8abe16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 038/100] fix: changing dimension sizes is all or nothing

---
 src/dlite-entity.c | 100 ++++++++++++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 34 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 888b0e1..f57d8ac 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1,6 +1,7 @@
 #include <assert.h>
 #include <stdlib.h>
 #include <stddef.h>
+#include <limits.h>
 #include <string.h>
 #include <ctype.h>
 
@@ -1479,7 +1480,7 @@ int dlite_instance_get_dimension_size(const DLiteInstance *inst,
   if (!inst->meta)
     return errx(dliteMissingMetadataError, "no metadata available");
   if ((i = dlite_meta_get_dimension_index(inst->meta, name)) < 0) return -1;
-  assert(i < (int)inst->meta->_nproperties);
+  assert(i < (int)inst->meta->_ndimensions);
   return dlite_instance_get_dimension_size_by_index(inst, i);
 }
 
@@ -1796,6 +1797,28 @@ int dlite_instance_sync_from_properties(DLiteInstance *inst)
 }
 
 
+/*
+  Help function that assigns `*nmemb` to the number of elements in property
+  `i` of `inst`.  Returns non-zero if the property is too large.
+ */
+static int property_nmemb(const DLiteInstance *inst, size_t i, size_t *nmemb)
+{
+  const DLiteProperty *p = inst->meta->_properties + i;
+  int j, empty=0;
+  size_t n=1;
+  for (j=0; j < p->ndims; j++)
+    if (DLITE_PROP_DIM(inst, i, j) == 0) empty = 1;
+  for (j=0; j < p->ndims && !empty; j++) {
+    size_t dim = DLITE_PROP_DIM(inst, i, j);
+    if (n > ((size_t)-1)/2/p->size/dim)
+      return err(dliteMemoryError, "property '%s' of %s is too large",
+                 p->name, (inst->uri) ? inst->uri : inst->uuid);
+    n *= dim;
+  }
+  *nmemb = (empty) ? 0 : n;
+  return 0;
+}
+
 /*
   Updates the size of all dimensions in `inst`.  The new dimension
   sizes are provided in `dims`, which must be of length
@@ -1815,7 +1838,8 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   size_t n;
   size_t *xdims=NULL;
   size_t *oldpropdims=NULL;
-  int *oldmembs=NULL;
+  size_t *oldmembs=NULL;
+  char **newprops=NULL;
 
   if (inst->_flags & dliteImmutable)
     return err(1, "cannot set property on immutable instance: %s",
@@ -1826,7 +1850,7 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
 
   if (inst->meta->_setdim)
     for (n=0; n < inst->meta->_ndimensions; n++)
-      if (inst->meta->_setdim(inst, n, dims[n]) < 0) goto fail;
+      if (dims[n] >= 0 && inst->meta->_setdim(inst, n, dims[n]) < 0) goto fail;
 
   if (!(xdims = calloc(inst->meta->_ndimensions, sizeof(size_t))))
     FAILCODE(dliteMemoryError, "Allocation failure");
@@ -1839,7 +1863,9 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   memcpy(oldpropdims, DLITE_PROP_DIMS(inst, 0),
          inst->meta->_npropdims * sizeof(size_t));
 
-  if (!(oldmembs = calloc(inst->meta->_nproperties, sizeof(int))))
+  if (!(oldmembs = calloc(inst->meta->_nproperties, sizeof(size_t))))
+    FAILCODE(dliteMemoryError, "Allocation failure");
+  if (!(newprops = calloc(inst->meta->_nproperties, sizeof(char *))))
     FAILCODE(dliteMemoryError, "Allocation failure");
   for (n=0; n < inst->meta->_nproperties; n++) {
     DLiteProperty *p = inst->meta->_properties + n;
@@ -1851,40 +1877,36 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   /* evaluate new propdims */
   if (_instance_propdims_eval(inst, xdims)) goto fail;
 
-  /* reallocate properties */
+  /* allocate new memory for all properties whos size changes, such that
+     nothing is changed if we run out of memory */
   for (n=0; n < inst->meta->_nproperties; n++) {
     DLiteProperty *p = inst->meta->_properties + n;
-    int newmembs=1, oldsize, newsize;
-    void **ptr = DLITE_PROP(inst, n);
+    size_t newmembs;
     if (p->ndims <= 0) continue;
-    for (i=0; i < p->ndims; i++)
-      newmembs *= DLITE_PROP_DIM(inst, n, i);
-
-    oldsize = oldmembs[n] * p->size;
-    newsize = newmembs * p->size;
-    if (newmembs == oldmembs[n]) {
-      continue;
-    } else if (newmembs > 0) {
-      void **q;
-      if (newmembs < oldmembs[n])
-        for (i=newmembs; i < oldmembs[n]; i++)
-          dlite_type_clear((char *)(*ptr) + i*p->size, p->type, p->size);
-      if (!(q = realloc(*ptr, newsize))) {
-        free(*ptr);
-        return err(dliteMemoryError, "error reallocating '%s' to size %d", p->name, newsize);
-      }
-      *ptr = q;
+    if (property_nmemb(inst, n, &newmembs)) goto fail;
+    if (newmembs == oldmembs[n] || newmembs == 0) continue;
+    if (!(newprops[n] = calloc(newmembs, p->size)))
+      FAILCODE2(dliteMemoryError, "error reallocating '%s' to %lu elements",
+                p->name, (unsigned long)newmembs);
+  }
 
-      if (newmembs > oldmembs[n])
-        memset((char *)(*ptr) + oldsize, 0, newsize - oldsize);
-    } else if (*ptr) {
-      for (i=0; i < oldmembs[n]; i++)
-        dlite_type_clear((char *)(*ptr) + i*p->size, p->type, p->size);
+  /* reallocate properties */
+  for (n=0; n < inst->meta->_nproperties; n++) {
+    DLiteProperty *p = inst->meta->_properties + n;
+    size_t j, newmembs, keep;
+    char **ptr = DLITE_PROP(inst, n);
+    if (p->ndims <= 0) continue;
+    property_nmemb(inst, n, &newmembs);
+    if (newmembs == oldmembs[n]) continue;
+    keep = (newmembs < oldmembs[n]) ? newmembs : oldmembs[n];
+    if (*ptr) {
+      for (j=keep; j < oldmembs[n]; j++)
+        dlite_type_clear(*ptr + j*p->size, p->type, p->size);
+      if (keep) memcpy(newprops[n], *ptr, keep*p->size);
       free(*ptr);
-      *ptr = NULL;
-    } else {
-      assert(oldsize == 0);
     }
+    *ptr = newprops[n];
+    newprops[n] = NULL;
   }
 
   /* update dimensions */
@@ -1901,6 +1923,10 @@ int dlite_instance_set_dimension_sizes(DLiteInstance *inst, const int *dims)
   if (xdims) free(xdims);
   if (oldpropdims) free(oldpropdims);
   if (oldmembs) free(oldmembs);
+  if (newprops) {
+    for (n=0; n < inst->meta->_nproperties; n++) free(newprops[n]);
+    free(newprops);
+  }
   return retval;
 }
 
@@ -1912,8 +1938,14 @@ int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst,
                                                size_t i, size_t size)
 {
   size_t j;
-  int retval;
-  int *dims = malloc(inst->meta->_ndimensions * sizeof(int));
+  int retval, *dims;
+  if (i >= inst->meta->_ndimensions)
+    return errx(dliteIndexError, "no dimension with index %d in %s",
+                (int)i, inst->meta->uri);
+  if (size > INT_MAX)
+    return errx(dliteIndexError, "too large dimension size: %lu",
+                (unsigned long)size);
+  dims = malloc(inst->meta->_ndimensions * sizeof(int));
   if (!dims) return err(dliteMemoryError, "allocation failure");
   for (j=0; j < inst->meta->_ndimensions; j++) dims[j] = -1;
   dims[i] = size;
-- 
2.43.0


From cf8b5ade93ef01e5222f7b49c547ffaea26fbddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 039/100] fix: looking up an instance: missing id, non-metadata
 and borrowed references; failed metadata is not left in the store

---
 src/dlite-entity.c | 44 ++++++++++++++++++++++++++++++++++----------
 src/dlite-json.c   |  3 ++-
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index f57d8ac..f26bfb3 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -561,7 +561,7 @@ DLiteInstance *dlite_instance_create_from_id(const char *metaid,
 {
   DLiteMeta *meta;
   DLiteInstance *inst=NULL;
-  if (!(meta = (DLiteMeta *)dlite_instance_get(metaid)))
+  if (!(meta = dlite_meta_get(metaid)))
     FAILCODE1(dliteMissingMetadataError, "cannot find metadata '%s'", metaid);
   inst = dlite_instance_create(meta, dims, id);
  fail:
@@ -623,6 +623,18 @@ static int dlite_instance_free(DLiteInstance *inst)
 }
 
 
+/*
+  Help function that gets rid of a new instance that could not be
+  initialised.  Metadata has an extra reference for being in the
+  instance store.
+ */
+static void _instance_discard(DLiteInstance *inst)
+{
+  if (!dlite_instance_is_meta(inst) || dlite_instance_decref(inst) > 0)
+    dlite_instance_decref(inst);
+}
+
+
 /*
   Increases reference count on `inst`.
 
@@ -673,10 +685,11 @@ DLiteInstance *dlite_instance_has(const char *id, bool check_storages)
   DLiteInstance *inst;
   if (!(inst = _instance_store_get(id)) && check_storages) {
     ErrTry:
-      if ((inst = dlite_instance_get(id))) {
+      /* Nobody but the caller may own a just loaded instance.  In that
+         case we have to keep our reference, since the caller gets a
+         borrowed one. */
+      if ((inst = dlite_instance_get(id)) && inst->_refcount > 1)
         dlite_instance_decref(inst);
-        assert(inst->_refcount > 0);
-      }
     ErrOther:
       break;
     ErrEnd;
@@ -704,6 +717,10 @@ DLiteInstance *dlite_instance_get(const char *id)
   DLiteStoragePathIter *iter;
   const char *url;
 
+  /* a storage may interpret a missing id as any instance */
+  if (!id || !*id)
+    return errx(dliteValueError, "cannot get instance without id"), NULL;
+
   /* check if instance `id` is already instantiated... */
   if ((inst = _instance_store_get(id))) {
     dlite_instance_incref(inst);
@@ -960,13 +977,13 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   if (!(uri = dlite_datamodel_get_meta_uri(d))) goto fail;
 
   /* If metadata is not given, try to load it from cache... */
-  meta = (DLiteMeta *)dlite_instance_get(uri);
+  meta = dlite_meta_get(uri);
 
   /* ...otherwise try to load it from storage */
   if (!meta) {
     char uuid[DLITE_UUID_LENGTH+1];
     if (dlite_get_uuid(uuid, uri) < 0) goto fail;
-    meta = (DLiteMeta *)dlite_instance_load(s, uuid);
+    meta = dlite_meta_load(s, uuid);
   }
 
   /* ...otherwise give up */
@@ -1053,7 +1070,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   if (!instance && !err_geteval())
     err(dliteIOError, "cannot load id '%s' from storage '%s'", id,
         (s) ? s->location : "");
-  if (inst) dlite_instance_decref(inst);
+  if (inst) _instance_discard(inst);
   else if (!instance && meta) dlite_meta_decref(meta);
   if (d) dlite_datamodel_free(d);
   if (uri) free((char *)uri);
@@ -2673,7 +2690,7 @@ dlite_meta_create(const char *uri, const char *description,
   if (name) free(name);
   if (version) free(version);
   if (namespace) free(namespace);
-  if (!entity && e) dlite_instance_decref(e);
+  if (!entity && e) _instance_discard(e);
   return entity;
 }
 
@@ -2749,7 +2766,8 @@ int dlite_meta_init(DLiteMeta *meta)
     meta->_propdiminds[i] = j;
     j += meta->_properties[i].ndims;
   }
-  _instance_propdims_eval((DLiteInstance *)meta, DLITE_DIMS(meta));
+  if (_instance_propdims_eval((DLiteInstance *)meta, DLITE_DIMS(meta)))
+    goto fail;
 
   /* Assign memory layout of instances */
   size = meta->_headersize;
@@ -2845,7 +2863,13 @@ int dlite_meta_decref(DLiteMeta *meta)
 */
 DLiteMeta *dlite_meta_get(const char *id)
 {
-  return (DLiteMeta *)dlite_instance_get(id);
+  DLiteInstance *inst;
+  if (!(inst = dlite_instance_get(id))) return NULL;
+  if (!dlite_instance_is_meta(inst)) {
+    dlite_instance_decref(inst);
+    return err(dliteTypeError, "not metadata: %s", id), NULL;
+  }
+  return (DLiteMeta *)inst;
 }
 
 
diff --git a/src/dlite-json.c b/src/dlite-json.c
index be2c567..4d18697 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -776,7 +776,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       if (meta->_loadprop) meta->_loadprop(inst, i);
     }
   }
-  if (dlite_instance_is_meta(inst)) dlite_meta_init((DLiteMeta *)inst);
+  if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
+    goto fail;
   ok = 1;
  fail:
   if (name) free(name);
-- 
2.43.0


From 33aa68c08f2a3d9160310c56c9da433cd66d1e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 040/100] fix: casting of bools and copying values of the same
 type

toBool wrote to the source and bool to int, uint and float read a value
of the wrong size.  Casting to the same type and size is now a plain copy.
---
 src/dlite-type-cast.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index fc76355..1c31b99 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -152,8 +152,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 #define toBool                                          \
   do {                                                  \
     switch (istrue(src, src_type, src_size)) {          \
-    case 0: *((bool *)src) = 0; return 0;               \
-    case 1: *((bool *)src) = 1; return 0;               \
+    case 0: *((bool *)dest) = 0; return 0;              \
+    case 1: *((bool *)dest) = 1; return 0;              \
     default: goto fail;                                 \
     }                                                   \
   } while (0)
@@ -199,6 +199,10 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
   long double vf;
   char stype[32], dtype[32];
 
+  /* No casting needed, make a plain copy */
+  if (dest_type == src_type && dest_size == src_size)
+    return (dlite_type_copy(dest, src, src_type, src_size)) ? 0 : 1;
+
   switch (src_type) {
 
   case dliteBlob:
@@ -229,32 +233,32 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       toBool;
     case dliteUInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((uint8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((uint16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((uint32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((uint64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((uint8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((uint16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((uint32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((uint64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((int8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((int16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((int32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((int64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((int8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((int16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((int32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((int64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteFloat:
       switch (dest_size) {
-      case 4: *((bool *)dest) = (*((float32_t *)src)) ? 1 : 0;   return 0;
-      case 8: *((bool *)dest) = (*((float64_t *)src)) ? 1 : 0;   return 0;
+      case 4: *((float32_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
+      case 8: *((float64_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
 #ifdef HAVE_FLOAT80
-      case 10: *((bool *)dest) = (*((float80_t *)src)) ? 1 : 0;  return 0;
+      case 10: *((float80_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT96
-      case 12: *((bool *)dest) = (*((float96_t *)src)) ? 1 : 0;  return 0;
+      case 12: *((float96_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT128
-      case 16: *((bool *)dest) = (*((float128_t *)src)) ? 1 : 0; return 0;
+      case 16: *((float128_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
       default: goto fail;
       }
-- 
2.43.0


From 33acbb665f57607261a8a4f7c2d452b2f7eed4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 041/100] fix: copying empty and strided arrays, and scanning
 values

dlite_type_ndcast() shared strings when the layouts were equal, read outside
the shape when checking if the memory was contiguous and copied one element
of empty arrays.  Scanning a fixed length string left the remainder of the
old value and an unsigned integer after blanks did not terminate.
---
 src/dlite-type.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index b865123..5f387a8 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1075,7 +1075,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
   case dliteUInt:
     v = 0;
-    while (isblank(src[v])) m++;
+    while (isblank(src[v])) v++;
     if (src[v] == '0' && (src[v+1] == 'x' || src[v+1] == 'X')) {
       switch (size) {
 #ifdef HAVE_INTTYPES_H
@@ -1129,11 +1129,13 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
     break;
 
   case dliteFixString:
-    switch (strnunquote((char *)p, size, src, len, &m, qflags)) {
+    switch (v = strnunquote((char *)p, size, src, len, &m, qflags)) {
     case -1: return errx(-1, "expected initial double quote around string");
     case -2: return errx(-1, "expected final double quote around string");
     }
-    ((char *)p)[size-1] = '\0';
+    /* clear what may remain of the old value */
+    i = (v < (int)size) ? (size_t)v : size - 1;
+    memset((char *)p + i, 0, size - i);
     break;
 
   case dliteStringPtr:
@@ -1506,13 +1508,14 @@ int dlite_type_ndcast(int ndims,
   size_t *sidx=NULL, *didx=NULL;
   size_t j, n, N=1;
 
-  assert(src);
-  assert(dest);
   if (!castfun) castfun = dlite_type_copy_cast;
 
   /* Scalar */
-  if (ndims == 0)
+  if (ndims == 0) {
+    assert(src);
+    assert(dest);
     return castfun(dest, dest_type, dest_size, src, src_type, src_size);
+  }
 
   assert(src_dims);
   assert(dest_dims);
@@ -1526,6 +1529,11 @@ int dlite_type_ndcast(int ndims,
     return err(dliteIndexError, "incompatible sizes of dimension %d for source (%lu) and dest (%lu)", i,
                (unsigned long)N, (unsigned long)n);
 
+  /* Nothing to copy.  The data pointers of empty arrays may be NULL. */
+  if (N == 0) return 0;
+  assert(src);
+  assert(dest);
+
   /* Default source strides */
   if (!src_strides) {
     size_t size = src_size;
@@ -1550,6 +1558,8 @@ int dlite_type_ndcast(int ndims,
 
   /* -- check that source and dest have same layout */
   if (dest_type != src_type || dest_size != src_size) samelayout = 0;
+  /* elements that own allocated memory have to be copied one by one */
+  if (dlite_type_is_allocated(src_type)) samelayout = 0;
   if (samelayout) {
     for (i=0; i<ndims; i++)
       if (dest_dims[i] != src_dims[i] || dest_strides[i] != src_strides[i]) {
@@ -1562,7 +1572,7 @@ int dlite_type_ndcast(int ndims,
     int size = src_size;
     for (i=0; i<ndims; i++) {
       int iscont=0;
-      for (j=0; j < src_dims[j]; j++)
+      for (j=0; j < (size_t)ndims; j++)
         if (src_strides[j] == size) { iscont = 1; break; }
       if (!iscont) { samelayout = 0; break; }
       size *= src_dims[i];
-- 
2.43.0


From 1f5ff8ba4055ebfe8bff9ef85b0b514779ba44a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:06 +0000
Subject: [PATCH 042/100] fix: printing, scanning and copying property values

Array properties without elements can be printed and scanned, blobs and
references in arrays are scanned back from what is printed, immutable
instances are not changed by scanning or assigning, the 'F' order is really
column-major, empty input and far too large arrays are errors.
---
 src/dlite-entity.c | 149 ++++++++++++++++++++++++++++++---------------
 1 file changed, 100 insertions(+), 49 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index f26bfb3..c435101 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -417,6 +417,28 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
 }
 
 
+/*
+  Help function that assigns `*nmemb` to the number of elements in property
+  `i` of `inst`.  Returns non-zero if the property is too large.
+ */
+static int property_nmemb(const DLiteInstance *inst, size_t i, size_t *nmemb)
+{
+  const DLiteProperty *p = inst->meta->_properties + i;
+  int j, empty=0;
+  size_t n=1;
+  for (j=0; j < p->ndims; j++)
+    if (DLITE_PROP_DIM(inst, i, j) == 0) empty = 1;
+  for (j=0; j < p->ndims && !empty; j++) {
+    size_t dim = DLITE_PROP_DIM(inst, i, j);
+    if (n > ((size_t)-1)/2/(p->size + 1)/dim)
+      return err(dliteMemoryError, "property '%s' of %s is too large",
+                 p->name, (inst->uri) ? inst->uri : inst->uuid);
+    n *= dim;
+  }
+  *nmemb = (empty) ? 0 : n;
+  return 0;
+}
+
 /*
   Help function for dlite_instance_create().  If `lookup` is true,
   a check will be done to see if the instance already exists.
@@ -428,7 +450,7 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
   char uuid[DLITE_UUID_LENGTH+1];
   size_t i, size;
   DLiteInstance *inst=NULL;
-  int j, idtype;
+  int idtype;
 
   /* Check if we are trying to create an instance with an already
      existing id. */
@@ -485,11 +507,10 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
     DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
     void **ptr = DLITE_PROP(inst, i);
     if (p->ndims > 0 && p->shape) {
-      size_t nmemb=1, size=p->size;
-      for (j=0; j<p->ndims; j++)
-        nmemb *= DLITE_PROP_DIM(inst, i, j);
+      size_t nmemb;
+      if (property_nmemb(inst, i, &nmemb)) goto fail;
       if (nmemb > 0) {
-        if (!(*ptr = calloc(nmemb, size)))
+        if (!(*ptr = calloc(nmemb, p->size)))
           FAILCODE(dliteMemoryError, "allocation failure");
       } else {
         *ptr = NULL;
@@ -1600,6 +1621,18 @@ int dlite_instance_is_metameta(const DLiteInstance *inst)
 }
 
 
+/*
+  Help function that returns non-zero if property `i` of `inst` is an array
+  without any elements.  The value of such a property is NULL.
+ */
+static int is_empty_property(const DLiteInstance *inst, size_t i)
+{
+  int j;
+  for (j=0; j < inst->meta->_properties[i].ndims; j++)
+    if (DLITE_PROP_DIM(inst, i, j) == 0) return 1;
+  return 0;
+}
+
 /*
   Write a string representation of property `name` to `dest`.
 
@@ -1647,8 +1680,9 @@ int dlite_instance_print_property_by_index(char *dest, size_t n,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
+  if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
+      !is_empty_property(inst, i)) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
   return dlite_property_print(dest, n, ptr, p, shape, width, prec, flags);
@@ -1690,8 +1724,9 @@ int dlite_instance_aprint_property_by_index(char **dest, size_t *n,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
+  if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
+      !is_empty_property(inst, i)) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
   return dlite_property_aprint(dest, n, pos, ptr, p, shape, width, prec,
@@ -1729,8 +1764,12 @@ int dlite_instance_scan_property_by_index(const char *src,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
-  if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
+  if (inst->_flags & dliteImmutable)
+    return err(-1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
+  if (!(ptr = dlite_instance_get_property_by_index(inst, i)) &&
+      !is_empty_property(inst, i)) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
   assert(shape);
   return dlite_property_scan(src, ptr, p, shape, flags);
@@ -1814,28 +1853,6 @@ int dlite_instance_sync_from_properties(DLiteInstance *inst)
 }
 
 
-/*
-  Help function that assigns `*nmemb` to the number of elements in property
-  `i` of `inst`.  Returns non-zero if the property is too large.
- */
-static int property_nmemb(const DLiteInstance *inst, size_t i, size_t *nmemb)
-{
-  const DLiteProperty *p = inst->meta->_properties + i;
-  int j, empty=0;
-  size_t n=1;
-  for (j=0; j < p->ndims; j++)
-    if (DLITE_PROP_DIM(inst, i, j) == 0) empty = 1;
-  for (j=0; j < p->ndims && !empty; j++) {
-    size_t dim = DLITE_PROP_DIM(inst, i, j);
-    if (n > ((size_t)-1)/2/p->size/dim)
-      return err(dliteMemoryError, "property '%s' of %s is too large",
-                 p->name, (inst->uri) ? inst->uri : inst->uuid);
-    n *= dim;
-  }
-  *nmemb = (empty) ? 0 : n;
-  return 0;
-}
-
 /*
   Updates the size of all dimensions in `inst`.  The new dimension
   sizes are provided in `dims`, which must be of length
@@ -2088,6 +2105,34 @@ DLiteArray *dlite_instance_get_property_array(const DLiteInstance *inst,
 }
 
 
+/*
+  Help function that assigns `*strides` to a newly allocated array with
+  the strides of property `i` of `inst` if its data were stored in the given
+  `order`.  For C-order and scalars, which has default strides, it is
+  assigned to NULL.
+
+  Return non-zero on error.
+ */
+static int get_order_strides(const DLiteInstance *inst, int i, int order,
+                             int **strides)
+{
+  const DLiteProperty *p = inst->meta->_properties + i;
+  int j, size=p->size;
+  *strides = NULL;
+  if (order != 'C' && order != 'F')
+    return err(dliteValueError,
+               "invalid order '%c', should be either 'C' or 'F'", order);
+  if (order == 'C' || p->ndims == 0) return 0;
+  if (!(*strides = calloc(p->ndims, sizeof(int))))
+    return err(dliteMemoryError, "allocation failure");
+  for (j=0; j < p->ndims; j++) {
+    (*strides)[j] = size;
+    size *= DLITE_PROP_DIM(inst, i, j);
+  }
+  return 0;
+}
+
+
 /*
   Copy value of property `name` to memory pointed to by `dest`.  It must be
   large enough to hole all the data.  The order argument `order` has the
@@ -2113,14 +2158,13 @@ int dlite_instance_copy_property(const DLiteInstance *inst, const char *name,
 int dlite_instance_copy_property_by_index(const DLiteInstance *inst, int i,
                                           int order, void *dest)
 {
-  int retval=1;
-  DLiteProperty *p = inst->meta->_properties + i;
-  DLiteArray *arr = dlite_instance_get_property_array(inst, p->name, order);
-  if (!arr) return 1;
+  int retval, *strides;
+  const DLiteProperty *p = inst->meta->_properties + i;
+  if (get_order_strides(inst, i, order, &strides)) return 1;
   retval = dlite_instance_cast_property_by_index(inst, i, p->type, p->size,
-                                                 arr->shape, arr->strides,
-                                                 dest, NULL);
-  dlite_array_free(arr);
+                                                 DLITE_PROP_DIMS(inst, i),
+                                                 strides, dest, NULL);
+  free(strides);
   return retval;
 }
 
@@ -2165,18 +2209,16 @@ int dlite_instance_cast_property_by_index(const DLiteInstance *inst,
 int dlite_instance_assign_property(const DLiteInstance *inst, const char *name,
                                    int order, const void *src)
 {
-  int i, retval=1;
-  DLiteProperty *p;
-  DLiteArray *arr;
+  int i, retval, *strides;
+  const DLiteProperty *p;
   if ((i = dlite_meta_get_property_index(inst->meta, name)) < 0) return 1;
   p = inst->meta->_properties + i;
-  if (!(arr = dlite_instance_get_property_array(inst, p->name, order)))
-    return 1;
+  if (get_order_strides(inst, i, order, &strides)) return 1;
   retval =
     dlite_instance_assign_casted_property_by_index(inst, i, p->type, p->size,
-                                                   arr->shape, arr->strides,
-                                                   src, NULL);
-  dlite_array_free(arr);
+                                                   DLITE_PROP_DIMS(inst, i),
+                                                   strides, src, NULL);
+  free(strides);
   return retval;
 }
 
@@ -2202,6 +2244,9 @@ int dlite_instance_assign_casted_property_by_index(const DLiteInstance *inst,
   void *dest = dlite_instance_get_property_by_index(inst, i);
   DLiteProperty *p = inst->meta->_properties + i;
   size_t *dims = DLITE_PROP_DIMS(inst, i);
+  if (inst->_flags & dliteImmutable)
+    return err(1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
   return dlite_type_ndcast(p->ndims,
                            dest, p->type, p->size, dims, NULL,
                            src, type, size, shape, strides,
@@ -3280,8 +3325,9 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
   int m;
   void *q;
   size_t newsize;
-  if (!dest && !*dest) *n = 0;
-  m = dlite_property_print(*dest + pos, PDIFF(*n, pos), ptr, p, shape,
+  if (!*dest) *n = 0;
+  m = dlite_property_print((*dest) ? *dest + pos : NULL, PDIFF(*n, pos),
+                           ptr, p, shape,
                            width, prec, flags);
   if (m < 0) return m;  /* failure */
   if (m < (int)PDIFF(*n, pos)) return m;  // success, buffer is large enough
@@ -3311,7 +3357,8 @@ static int scantoken(const char *src, const jsmntok_t *t, void *ptr,
 {
   int len = t->end - t->start;
   if (t->type == JSMN_STRING &&
-      (p->type == dliteStringPtr || p->type == dliteFixString)) {
+      (p->type == dliteStringPtr || p->type == dliteFixString ||
+       p->type == dliteBlob || p->type == dliteRef)) {
     int m = dlite_type_scan(src + t->start - 1, len + 2, ptr, p->type, p->size,
                             dliteFlagQuoted);
     return (m < 0) ? m : len;
@@ -3537,7 +3584,11 @@ int dlite_property_scan(const char *src, void *ptr, const DLiteProperty *p,
     jsmn_parser parser;
     jsmn_init(&parser);
     r = jsmn_parse_alloc(&parser, src, strlen(src), &tokens, &ntokens);
-    if (r < 0) return err(dliteValueError, "error parsing input: %s", jsmn_strerror(r));
+    if (r <= 0) {
+      free(tokens);
+      return err(dliteValueError, "error parsing input: %s",
+                 (r) ? jsmn_strerror(r) : "no data");
+    }
     t = tokens;
     r = scandim(0, src, &q, p, shape, flags, &t);
     n = tokens[0].end;
-- 
2.43.0


From 1afb917aa415b0a15cec42daaa8d253be41c4fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 043/100] fix: report allocation failures when assigning
 triples and setting the default namespace first

---
 src/triple.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/triple.c b/src/triple.c
index 6914707..d3e0779 100644
--- a/src/triple.c
+++ b/src/triple.c
@@ -26,11 +26,24 @@ static void free_globals(void *globals)
   free(g);
 }
 
-/* Sets default namespace to be prepended to triple id's. */
-void triple_set_default_namespace(const char *namespace)
+/* Returns a pointer to global variables or NULL on error. */
+static TripleGlobals *get_globals(void)
 {
   Session *s = session_get_default();
   TripleGlobals *g = session_get_state(s, TRIPLE_GLOBALS_ID);
+  if (!g) {
+    if (!(g = calloc(1, sizeof(TripleGlobals))))
+      return err(1, "allocation failure"), NULL;
+    session_add_state(s, TRIPLE_GLOBALS_ID, g, free_globals);
+  }
+  return g;
+}
+
+/* Sets default namespace to be prepended to triple id's. */
+void triple_set_default_namespace(const char *namespace)
+{
+  TripleGlobals *g = get_globals();
+  if (!g) return;
   if (g->default_namespace)
     free(g->default_namespace);
   if (namespace)
@@ -42,14 +55,8 @@ void triple_set_default_namespace(const char *namespace)
 /* Returns default namespace. */
 const char *triple_get_default_namespace(void)
 {
-  Session *s = session_get_default();
-  TripleGlobals *g = session_get_state(s, TRIPLE_GLOBALS_ID);
-  if (!g) {
-    if (!(g = calloc(1, sizeof(TripleGlobals))))
-      return err(1, "allocation failure"), NULL;
-    session_add_state(s, TRIPLE_GLOBALS_ID, g, free_globals);
-  }
-  return (const char *)g->default_namespace;
+  TripleGlobals *g = get_globals();
+  return (g) ? g->default_namespace : NULL;
 }
 
 
@@ -74,12 +81,17 @@ void triple_clean(Triple *t)
 int triple_set(Triple *t, const char *s, const char *p, const char *o,
                const char *d, const char *id)
 {
-  t->s = strdup((s) ? s : "");
-  t->p = strdup((p) ? p : "");
-  t->o = strdup((o) ? o : "");
-  t->d = (d) ? strdup(d) : NULL;
-  t->id = (id) ? strdup(id) : triple_get_id(NULL, s, p, o, d);
+  memset(t, 0, sizeof(Triple));
+  if (!(t->s = strdup((s) ? s : ""))) goto fail;
+  if (!(t->p = strdup((p) ? p : ""))) goto fail;
+  if (!(t->o = strdup((o) ? o : ""))) goto fail;
+  if (d && !(t->d = strdup(d))) goto fail;
+  if (!(t->id = (id) ? strdup(id) : triple_get_id(NULL, t->s, t->p, t->o,
+                                                  t->d))) goto fail;
   return 0;
+ fail:
+  triple_clean(t);
+  return err(1, "allocation failure");
 }
 
 /*
@@ -140,6 +152,7 @@ Triple *triple_copy(Triple *dest, const Triple *src)
   if (src->id && !(dest->id = strdup(src->id))) goto fail;
   return dest;
  fail:
+  triple_clean(dest);
   err(1, "allocation failure");
   return NULL;
 }
-- 
2.43.0


From 5833a7887567079a7b5c08e2fd341fd8ca90c5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 044/100] fix: redland triplestore: datatype filter, unknown
 storage names and failing creation

---
 src/triplestore-redland.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/triplestore-redland.c b/src/triplestore-redland.c
index 99ecb21..d61ac21 100644
--- a/src/triplestore-redland.c
+++ b/src/triplestore-redland.c
@@ -158,19 +158,23 @@ static librdf_statement *stream_map(librdf_stream *stream, void *context,
     if (c->d) {
       char *lang = librdf_node_get_literal_value_language(no);
       librdf_uri *uri = librdf_node_get_literal_value_datatype_uri(no);
+      if (c->d[0] == '\0') return NULL;
       if (lang) {
         if ((c->d[0] != '@') || (strcmp(c->d+1, lang) != 0)) return NULL;
-      }
-      if (uri) {
+      } else if (uri) {
         if (strcmp(c->d, (char *)librdf_uri_as_string(uri)) != 0) return NULL;
+      } else {
+        return NULL;
       }
-      if (c->d[0] == '\0' && (lang || uri)) return NULL;
     }
   } else {
     librdf_uri *iri = librdf_node_get_uri(no);
     if (c->d && c->d[0]) return NULL;
-    if (c->o && iri && strcmp(c->o, (char *)librdf_uri_as_string(iri)) != 0)
-      return NULL;
+    if (c->o) {
+      char *value = (iri) ? (char *)librdf_uri_as_string(iri) :
+        (char *)librdf_node_get_blank_identifier(no);
+      if (!value || strcmp(value, c->o) != 0) return NULL;
+    }
   }
   return item;
 }
@@ -224,6 +228,7 @@ static librdf_stream *find(TripleStore *ts, const char *s, const char *p,
 
   if ((o || d) && !(o && d && *d)) {
     void *context = stream_get_context(o, d);
+    if (!context) goto fail;
     if (librdf_stream_add_map(stream, stream_map, stream_free, context))
       FAIL("error adding mapping function to stream");
   }
@@ -375,12 +380,13 @@ librdf_model *triplestore_get_model(TripleStore *ts)
 int triplestore_set_default_storage(const char *name)
 {
   char **p = storage_module_names;
-  while (p) {
+  while (*p) {
     if (strcasecmp(name, *p) == 0) {
       Globals *g = get_globals();
-      g->default_storage_name = name;
+      g->default_storage_name = *p;
       return 0;
     }
+    p++;
   }
   return err(1, "no such triplestore storage: %s", name);
 }
@@ -403,7 +409,7 @@ TripleStore *triplestore_create_with_world(librdf_world *world,
                                            const char *options)
 {
   Globals *g = get_globals();
- TripleStore *ts=NULL;
+  TripleStore *ts=NULL;
   librdf_storage *storage=NULL;
   triplestore_init();
   if (!world) world = triplestore_get_default_world();
@@ -413,14 +419,15 @@ TripleStore *triplestore_create_with_world(librdf_world *world,
     goto fail;
 
   if (!(ts = calloc(1, sizeof(TripleStore)))) FAIL("Allocation failure");
+  g->nmodels++;
   ts->world = world;
   ts->storage = storage;
   if (!(ts->model = librdf_new_model(world, storage, NULL))) goto fail;
-  if (storage_name) ts->storage_name = strdup(storage_name);
-  if (name) ts->name = strdup(name);
-  if (options) ts->options = strdup(options);
+  if ((storage_name && !(ts->storage_name = strdup(storage_name))) ||
+      (name && !(ts->name = strdup(name))) ||
+      (options && !(ts->options = strdup(options))))
+    FAILCODE(dliteMemoryError, "allocation failure");
 
-  g->nmodels++;
   return ts;
  fail:
   if (ts) triplestore_free(ts);
@@ -469,7 +476,7 @@ void triplestore_free(TripleStore *ts)
   assert(g->nmodels > 0);
   g->nmodels--;
   librdf_free_storage(ts->storage);
-  librdf_free_model(ts->model);
+  if (ts->model) librdf_free_model(ts->model);
   if (ts->storage_name)  free((char *)ts->storage_name);
   if (ts->name)          free((char *)ts->name);
   if (ts->options)       free((char *)ts->options);
-- 
2.43.0


From 8624874c52b550fd2107620b4a204081b642cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:13 +0000
Subject: [PATCH 045/100] fix: builtin triplestore: ids refer to the right
 triple, all memory is released and searches agree

---
 src/triplestore-builtin.c | 157 +++++++++++++++++++++++---------------
 1 file changed, 97 insertions(+), 60 deletions(-)

diff --git a/src/triplestore-builtin.c b/src/triplestore-builtin.c
index 455be0b..35a8715 100644
--- a/src/triplestore-builtin.c
+++ b/src/triplestore-builtin.c
@@ -82,6 +82,28 @@ TripleStore *triplestore_create_with_storage(const char *storage_name,
 }
 
 
+/* Returns non-zero if triple `t` matches `s`, `p`, `o` and `d`.  See
+   triplestore_find() for the meaning of these. */
+static int match(const Triple *t, const char *s, const char *p,
+                 const char *o, const char *d)
+{
+  if (s && strcmp(s, t->s) != 0) return 0;
+  if (p && strcmp(p, t->p) != 0) return 0;
+  if (o && strcmp(o, t->o) != 0) return 0;
+  if (d && !*d) return !t->d;
+  if (d) return t->d && strcmp(d, t->d) == 0;
+  return 1;
+}
+
+/* Returns non-zero if the triples `a` and `b` are equal. */
+static int equal(const Triple *a, const Triple *b)
+{
+  if (!match(a, b->s, b->p, b->o, NULL)) return 0;
+  if (!a->d || !b->d) return !a->d && !b->d;
+  return strcmp(a->d, b->d) == 0;
+}
+
+
 /*
   Frees triplestore `ts`.
  */
@@ -89,10 +111,12 @@ void triplestore_free(TripleStore *ts)
 {
   assert(ts->freed == 0 || ts->niter == 0);
   triplestore_clear(ts);
-  if (ts->niter > 0)
+  if (ts->niter > 0) {
     ts->freed = 1;
-  else
+  } else {
+    if (ts->ns) free((char *)ts->ns);
     free(ts);
+  }
 }
 
 
@@ -145,34 +169,62 @@ int triplestore_add_triples(TripleStore *ts, const Triple *triples,
 
   /* append triples (avoid duplicates) */
   for (i=0; i<n; i++) {
-    Triple *t = ts->triples + ts->true_length;
-    char *id;
-    if (triples[i].id) {
-      if (!(id = strdup(triples[i].id))) return err(1, "allocation error");
-    } else {
-      if (!(id = triple_get_id(NULL, triples[i].s, triples[i].p,
-                               triples[i].o, triples[i].d)))
-
-        return 1;
+    Triple t;
+    int *idx;
+    memset(&t, 0, sizeof(t));
+    if (!(t.id = (triples[i].id) ? strdup(triples[i].id) :
+          triple_get_id(NULL, triples[i].s, triples[i].p,
+                        triples[i].o, triples[i].d)))
+      return err(dliteMemoryError, "cannot create triple id");
+
+    /* Generated ids are not unique, since they are calculated from the
+       concatenated strings. Extend the id if it refers to another triple. */
+    while ((idx = map_get(&ts->map, t.id)) && !triples[i].id &&
+           !equal(ts->triples + *idx, triples + i)) {
+      size_t len = strlen(t.id);
+      char *ptr = realloc(t.id, len + 2);
+      if (!ptr) goto fail;
+      t.id = ptr;
+      memcpy(t.id + len, "+", 2);
     }
-    if (!map_get(&ts->map, id)) {
-      if (!(t->s = strdup(triples[i].s))) return err(1, "allocation error");
-      if (!(t->p = strdup(triples[i].p))) return err(1, "allocation error");
-      if (!(t->o = strdup(triples[i].o))) return err(1, "allocation error");
-      t->d = (triples[i].d) ? strdup(triples[i].d) : NULL;
-      t->id = id;
-      ts->length++;
-      ts->true_length++;
-      map_set(&ts->map, id, i);
-    } else {
-      free(id);
+    if (idx) {
+      free(t.id);
+      continue;
     }
+
+    if (!(t.s = strdup(triples[i].s))) goto fail;
+    if (!(t.p = strdup(triples[i].p))) goto fail;
+    if (!(t.o = strdup(triples[i].o))) goto fail;
+    if (triples[i].d && !(t.d = strdup(triples[i].d))) goto fail;
+    if (map_set(&ts->map, t.id, ts->true_length)) goto fail;
+    ts->triples[ts->true_length++] = t;
+    ts->length++;
+    continue;
+  fail:
+    triple_clean(&t);
+    return err(dliteMemoryError, "allocation failure");
   }
 
   return 0;
 }
 
 
+/* Fills the hole in the array of triples left by the removed triple number
+   `n` with the last triple. */
+static void fill_hole(TripleStore *ts, size_t n)
+{
+  size_t last = --ts->true_length;
+  assert(n <= last);
+  if (n < last) {
+    int *idx;
+    ts->triples[n] = ts->triples[last];
+    if (ts->triples[n].id && (idx = map_get(&ts->map, ts->triples[n].id)))
+      *idx = (int)n;
+  }
+  memset(ts->triples + last, 0, sizeof(Triple));
+}
+
+
 /* Removes triple number n.  Returns non-zero on error. */
 static int _remove_by_index(TripleStore *ts, size_t n)
 {
@@ -182,20 +234,17 @@ static int _remove_by_index(TripleStore *ts, size_t n)
   if (!t->id)
     return err(1, "triple %lu is already removed", (unsigned long)n);
   map_remove(&ts->map, t->id);
+  ts->length--;
 
   if (ts->niter) {
     /* running iterator, mark triple for deletion by setting id to NULL */
     free(t->id);
     t->id = NULL;
-    ts->length--;
   } else {
     /* no running iterators, remove triple */
-    assert(ts->length == ts->true_length);
     triple_clean(t);
-    ts->length--;
-    if (t < ts->triples + ts->length)
-      memcpy(t, &ts->triples[ts->length], sizeof(Triple));
-    ts->true_length = ts->length;
+    fill_hole(ts, n);
+    assert(ts->length == ts->true_length);
   }
   return 0;
 }
@@ -225,12 +274,7 @@ int triplestore_remove(TripleStore *ts, const char *s, const char *p,
   while (--i >= 0) {
     const Triple *t = ts->triples + i;
     if (!t->id) continue;
-    if ((!s || strcmp(s, t->s) == 0) &&
-        (!p || strcmp(p, t->p) == 0) &&
-        (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0))) {
-      if (_remove_by_index(ts, i) == 0) n++;
-    }
+    if (match(t, s, p, o, d) && _remove_by_index(ts, i) == 0) n++;
   }
   return n;
 }
@@ -242,15 +286,16 @@ int triplestore_remove(TripleStore *ts, const char *s, const char *p,
  */
 void triplestore_clear(TripleStore *ts)
 {
-  int n=ts->true_length;
-  int niter=ts->niter;
-  while (--n >= 0)
-    if (ts->triples[n].id) _remove_by_index(ts, n);
+  size_t n;
+  for (n=0; n < ts->true_length; n++)
+    triple_clean(ts->triples + n);
   if (ts->triples) free(ts->triples);
+  ts->triples = NULL;
+  ts->length = 0;
+  ts->true_length = 0;
+  ts->size = 0;
   map_deinit(&ts->map);
-  memset(ts, 0, sizeof(TripleStore));
-  ts->niter = niter;
-  if (ts->ns) free((char *)ts->ns);
+  map_init(&ts->map);
 }
 
 
@@ -279,12 +324,7 @@ const Triple *triplestore_find_first(const TripleStore *ts, const char *s,
   size_t i;
   for (i=0; i<ts->true_length; i++) {
     const Triple *t = ts->triples + i;
-    if (t->id &&
-        (!s || strcmp(s, t->s) == 0) &&
-        (!p || strcmp(p, t->p) == 0) &&
-        (!o || strcmp(o, t->o) == 0) &&
-        (!d || (t->d && strcmp(d, t->d) == 0)))
-      return t;
+    if (t->id && match(t, s, p, o, d)) return t;
   }
   return NULL;
 }
@@ -318,22 +358,24 @@ void triplestore_deinit_state(TripleState *state)
     return;
   }
 
+  /* Remove the triples that were marked for deletion */
   if (ts->niter == 0 && ts->true_length > ts->length) {
-    for (i=ts->true_length-1; i>=0 && !ts->triples[i].id; i--)
-      ts->true_length--;
     for (i=ts->true_length-1; i>=0; i--) {
       Triple *t = ts->triples + i;
       if (!t->id) {
-        Triple *tt = ts->triples + (--ts->true_length);
-        assert(t < tt);
         triple_clean(t);
-        memcpy(t, tt, sizeof(Triple));
+        fill_hole(ts, i);
       }
     }
     assert(ts->true_length == ts->length);
     if (ts->size > ts->length + TRIPLESTORE_CHUNKSIZE) {
-      ts->size = ts->length + ts->length % TRIPLESTORE_CHUNKSIZE;
-      ts->triples = realloc(ts->triples, ts->size*sizeof(Triple));
+      size_t size = (ts->length / TRIPLESTORE_CHUNKSIZE + 1) *
+        TRIPLESTORE_CHUNKSIZE;
+      void *ptr = realloc(ts->triples, size*sizeof(Triple));
+      if (ptr) {
+        ts->triples = ptr;
+        ts->size = size;
+      }
     }
   }
 }
@@ -405,12 +447,7 @@ const Triple *triplestore_find(TripleState *state,
   TripleStore *ts = state->ts;
   while (state->pos < ts->true_length) {
     const Triple *t = ts->triples + state->pos++;
-    if (t->id &&
-        (!s || strcmp(s, t->s) == 0) &&
-        (!p || strcmp(p, t->p) == 0) &&
-        (!o || strcmp(o, t->o) == 0) &&
-        (!d || (!d[0] && !t->d) || (t->d && strcmp(d, t->d) == 0)))
-      return t;
+    if (t->id && match(t, s, p, o, d)) return t;
   }
   return NULL;
 }
-- 
2.43.0


From 6d1425f6b5bb1aeeb33293cc097eee1d4a0f936c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 046/100] fix: removing paths by index and failing allocations
 in search path iterators

---
 src/utils/fileutils.c | 52 ++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index f06ab21..06ffcf1 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -1006,10 +1006,11 @@ int fu_paths_insertn(FUPaths *paths, const char *path, size_t len, int n)
 
   if (paths->n+1 >= paths->size) {
     const char **q;
-    paths->size = paths->n + FU_PATHS_CHUNKSIZE;
-    if (!(q = realloc((char **)paths->paths, paths->size*sizeof(char **))))
+    size_t size = paths->n + FU_PATHS_CHUNKSIZE;
+    if (!(q = realloc((char **)paths->paths, size*sizeof(char **))))
       FAIL("reallocation failure");
     paths->paths = q;
+    paths->size = size;
   }
   if (n < (int)paths->n)
     memmove((char **)paths->paths + n + 1, paths->paths + n,
@@ -1102,7 +1103,7 @@ int fu_paths_extend_prefix(FUPaths *paths, const char *prefix,
  */
 int fu_paths_remove_index(FUPaths *paths, int index)
 {
-  if (index < -(int)(paths->n) || index >= (int)paths->n+1)
+  if (index < -(int)(paths->n) || index >= (int)paths->n)
     return err(-1, "path index out of range: %d", index);
   if (index < 0) index += paths->n;
   assert(paths->paths[index]);
@@ -1150,13 +1151,13 @@ static int strlist_free(char **strlist)
   return 0;
 }
 
-/* Returns a copy of NULL-terminated list of malloc'ed strings. */
+/* Returns a copy of NULL-terminated list of malloc'ed strings.
+   A NULL pointer is interpreted as an empty list. */
 static char **strlist_copy(const char **strlist)
 {
   char **cpy;
   size_t i, n=0;
-  if (!strlist) return NULL;
-  while (strlist[n]) n++;
+  if (strlist) while (strlist[n]) n++;
   if (!(cpy = calloc(n+1, sizeof(char *))))
     return err(1, "allocation failure"), NULL;
   for (i=0; i<n; i++) {
@@ -1194,7 +1195,6 @@ FUIter *fu_startmatch(const char *pattern, const FUPaths *paths)
   iter->dirsep = DIRSEP[0];
   return iter;
  fail:
-  if (iter->origpaths) strlist_free(iter->origpaths);
   if (iter) free(iter);
   return NULL;
 }
@@ -1253,6 +1253,7 @@ const char *fu_nextmatch(FUIter *iter)
       ErrEnd;
 
       if (!iter->dir) {
+        if (tmppath) free(tmppath);
         iter->i++;
         continue;
       }
@@ -1262,15 +1263,17 @@ const char *fu_nextmatch(FUIter *iter)
       if (globmatch(iter->pattern, filename) == 0) {
         size_t n = strlen(path) + strlen(filename) + 2;
         if (n > iter->pathsize) {
+          char *p = realloc(iter->path, n);
+          if (!p) FAIL("allocation failure");
+          iter->path = p;
           iter->pathsize = n;
-          if (!(iter->path = realloc(iter->path, iter->pathsize)))
-            FAIL("allocation failure");
         }
         iter->filename = filename;
         strcpy(iter->path, path);
         strcat(iter->path, dirsep);
         strcat(iter->path, filename);
         fu_friendly_dirsep(iter->path);
+        if (tmppath) free(tmppath);
         if (iter->path[0] == '.' && iter->path[1] == iter->dirsep)
           return iter->path+2;
         else
@@ -1327,8 +1330,7 @@ FUIter *fu_pathsiter_init(const FUPaths *paths, const char *pattern)
   iter->pattern = pattern;
   iter->dirsep = DIRSEP[0];
   iter->origlen = paths->n;
-  if (!(iter->origpaths = (paths->paths) ? strlist_copy(paths->paths) : NULL))
-    goto fail;
+  if (!(iter->origpaths = strlist_copy(paths->paths))) goto fail;
   return iter;
  fail:
   if (iter) free(iter);
@@ -1355,9 +1357,10 @@ const char *_fu_pathsiter_next(FUIter *iter)
         if (!strcmp(iter->filename, ".") || !strcmp(iter->filename, ".."))
           continue;
         if (iter->pathsize < len) {
+          char *q = realloc(iter->path, len);
+          if (!q) return err(1, "allocation failure"), NULL;
+          iter->path = q;
           iter->pathsize = len;
-          if (!(iter->path = realloc((iter->path), iter->pathsize)))
-            return err(1, "allocation failure"), NULL;
         }
         memcpy(iter->path, iter->dirname, n);
         iter->path[n] = iter->dirsep;
@@ -1380,9 +1383,10 @@ const char *_fu_pathsiter_next(FUIter *iter)
         char *p;
         size_t len = strlen(path) + 1;
         if (iter->pathsize < len) {
+          char *q = realloc(iter->path, len);
+          if (!q) return err(1, "allocation failure"), NULL;
+          iter->path = q;
           iter->pathsize = len;
-          if (!(iter->path = realloc((iter->path), iter->pathsize)))
-            return err(1, "allocation failure"), NULL;
         }
         memcpy(iter->path, path, len);
         iter->filename = (p = strrchr(iter->path, iter->dirsep)) ?
@@ -1402,8 +1406,11 @@ const char *_fu_pathsiter_next(FUIter *iter)
        Note that we are calling opendir() directly, to avoid errors if
        `path` is not a directory. */
     if ((iter->dir = opendir(path))) {
-      if (!(iter->dirname = strdup(path)))
+      if (!(iter->dirname = strdup(path))) {
+        closedir(iter->dir);
+        iter->dir = NULL;
         return err(1, "allocation failure"), NULL;
+      }
       continue;
     }
 
@@ -1486,17 +1493,16 @@ FUIter *fu_glob(const char *pattern, const char *pathsep)
     if (!(basename = fu_basename(pattern))) goto fail;
     if (!(dirname = fu_dirname(pattern))) goto fail;
   }
-  if (!*dirname) {
-    free(dirname);
-    dirname = strdup(".");
-  }
-  fu_paths_append(paths, dirname);
+  if (fu_paths_append(paths, (*dirname) ? dirname : ".") < 0) goto fail;
   iter = fu_startmatch(basename, paths);
  fail:
   if (dirname) free(dirname);
   if (!iter) {
-    fu_paths_deinit(paths);
-    free(paths);
+    if (basename) free(basename);
+    if (paths) {
+      fu_paths_deinit(paths);
+      free(paths);
+    }
   }
   return iter;
 }
-- 
2.43.0


From ab8ba79c60702e30611c3a22a64ca15a4ebcb729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 047/100] fix: serialising instances whose properties cannot be
 synchronised and loading extended metadata

---
 src/dlite-entity.c |  9 ++++++---
 src/dlite-json.c   | 20 ++++++++++++++------
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index c435101..9986a71 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1041,11 +1041,13 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   /* assign properties */
   for (i=0; i<meta->_nproperties; i++) {
     DLiteProperty *p = (DLiteProperty *)meta->_properties + i;
-    void *ptr = (void *)dlite_instance_get_property_by_index(inst, i);
+    void *ptr = DLITE_PROP(inst, i);
     size_t *pdims = DLITE_PROP_DIMS(inst, i);
+    if (p->ndims > 0) ptr = *(void **)ptr;
     if (dlite_datamodel_get_property(d, p->name, ptr, p->type, p->size,
 				     p->ndims, pdims))
       goto fail;
+    if (meta->_loadprop && meta->_loadprop(inst, i) < 0) goto fail;
   }
 
   /* initiates metadata of the new instance is metadata */
@@ -1347,8 +1349,9 @@ size_t dlite_instance_get_dimension_size_by_index(const DLiteInstance *inst,
                 (int)i, inst->meta->uri);
   if (inst->meta->_getdim) {
     size_t n = inst->meta->_getdim(inst, i);
-    if (n != DLITE_DIM(inst, i))
-      dlite_instance_sync_to_dimension_sizes((DLiteInstance *)inst);
+    if (n != DLITE_DIM(inst, i) &&
+        dlite_instance_sync_to_dimension_sizes((DLiteInstance *)inst))
+      return -1;
   }
   return DLITE_DIM(inst, i);
 }
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 4d18697..784cb5f 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -116,9 +116,15 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       DLiteProperty *p = inst->meta->_properties + i;
       void *ptr = dlite_instance_get_property_by_index(inst, i);
       size_t *shape= DLITE_PROP_DIMS(inst, i);
+      if (!ptr) {
+        /* NULL is only expected for arrays with no elements */
+        size_t nmemb=1;
+        for (j=0; j < p->ndims; j++) nmemb *= shape[j];
+        if (nmemb) goto fail;
+      }
       PRINT2("%s    \"%s\": ", in, p->name);
       m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
-      if (m < 0) return -1;
+      if (m < 0) goto fail;
       n += m;
       PRINT1("%s\n", c);
     }
@@ -360,12 +366,12 @@ int dlite_json_asprint(char **dest, size_t *size, size_t pos,
 
   if (!dest || !*dest || !*size) {
     /* Just count number of bytes to write */
-    m = dlite_json_sprint(*dest, 0, inst, indent, flags);
+    m = dlite_json_sprint(NULL, 0, inst, indent, flags);
     if (m < 0) return m;
   } else {
     /* Try to write to existing buffer */
     m = dlite_json_sprint(*dest + pos, PDIFF(*size, pos), inst, indent, flags);
-    if (m < (int)PDIFF(*size, pos)) return m;
+    if (m < 0 || m < (int)PDIFF(*size, pos)) return m;
   }
 
   /* Reallocate buffer to required size. */
@@ -406,8 +412,10 @@ char *dlite_json_aprint(const DLiteInstance *inst, int indent,
 {
   char *dest=NULL;
   size_t size=0;
-  if ((dlite_json_asprint(&dest, &size, 0, inst, indent, flags)) < 0)
+  if ((dlite_json_asprint(&dest, &size, 0, inst, indent, flags)) < 0) {
+    if (dest) free(dest);
     return NULL;
+  }
   return dest;
 }
 
@@ -425,8 +433,8 @@ int dlite_json_fprint(FILE *fp, const DLiteInstance *inst, int indent,
   if ((m = dlite_json_asprint(&buf, &size, 0, inst, indent, flags)) >= 0) {
     if (fprintf(fp, "%s\n", buf) < 0)
       m = err(dliteIOError, "error writing json");
-    free(buf);
   }
+  if (buf) free(buf);
   return m;
 }
 
@@ -773,7 +781,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         FAIL2("missing property \"%s\" in %s", p->name, id);
       }
 
-      if (meta->_loadprop) meta->_loadprop(inst, i);
+      if (meta->_loadprop && meta->_loadprop(inst, i) < 0) goto fail;
     }
   }
   if (dlite_instance_is_meta(inst) && dlite_meta_init((DLiteMeta *)inst))
-- 
2.43.0


From 0da92f4bba8a8ac5864fd57893a3c6dcc50c47bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 048/100] fix: collections release and keep exactly the
 references they own, load their members and hash unambiguously

---
 bindings/python/dlite-collection.i |   2 -
 src/dlite-collection.c             | 484 ++++++++++++++++++++---------
 src/dlite-collection.h             |  10 +-
 3 files changed, 343 insertions(+), 153 deletions(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 1d0527d..789a34d 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -58,8 +58,6 @@ struct _DLiteInstance *
 dlite_collection_get_new(const struct _DLiteCollection *coll,
                          const char *label, const char *metaid);
 
-// Although dlite_collection_get_id() returns a borrowed reference in C,
-// we create a new object in Python that must be properly deallocated.
 %newobject dlite_collection_get_id;
 const struct _DLiteInstance *
   dlite_collection_get_id(const struct _DLiteCollection *coll, const char *id);
diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 0ac8e49..bf5f4b9 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -4,6 +4,7 @@
 #include <string.h>
 
 #include "utils/err.h"
+#include "utils/map.h"
 #include "utils/sha3.h"
 #include "utils/strutils.h"
 #include "dlite-macros.h"
@@ -21,12 +22,112 @@
  * Collection
  **************************************************************/
 
+/* References that a collection holds to its instances.
+
+   Only references that are registered here are owned by the collection.
+   An instance that isn't loaded together with the collection, will be
+   registered the first time it is accessed. */
+typedef map_t(DLiteInstance *) refs_map_t;
+struct _DLiteCollectionRefs {
+  refs_map_t map;  /*!< maps "<uuid> <label>" to instance */
+};
+
+
+/* Returns newly allocated key for looking up an instance in refs->map.
+   Returns NULL on error. */
+static char *refs_key(const char *label, const char *uuid)
+{
+  size_t n = strlen(uuid), m = strlen(label);
+  char *key = malloc(n + m + 2);
+  if (!key) return err(dliteMemoryError, "allocation failure"), NULL;
+  memcpy(key, uuid, n);
+  key[n] = ' ';
+  memcpy(key + n + 1, label, m + 1);
+  return key;
+}
+
+/* Let the collection take over the callers reference to instance `inst`.
+   Returns non-zero on error. */
+static int refs_steal(const DLiteCollection *coll, const char *key,
+                      DLiteInstance *inst)
+{
+  DLiteInstance **q, *old=NULL;
+  int stat;
+  if ((q = map_get(&coll->refs->map, key))) old = *q;
+  if ((stat = map_set(&coll->refs->map, key, inst)))
+    err(dliteMemoryError, "allocation failure");
+  else if (old)
+    dlite_instance_decref(old);
+  return stat;
+}
+
+/* Releases all references to instances with given label. */
+static void refs_release_label(const DLiteCollection *coll, const char *label)
+{
+  map_iter_t iter = map_iter(&coll->refs->map);
+  const char *key;
+  while ((key = map_next(&coll->refs->map, &iter))) {
+    DLiteInstance *inst;
+    if (strcmp(key + DLITE_UUID_LENGTH + 1, label)) continue;
+    inst = *map_get(&coll->refs->map, key);
+    map_remove(&coll->refs->map, key);
+    dlite_instance_decref(inst);
+    iter = map_iter(&coll->refs->map);
+  }
+}
+
+/* Releases all references in `refs`. */
+static void refs_release_all(struct _DLiteCollectionRefs *refs)
+{
+  refs_map_t map = refs->map;
+  map_iter_t iter = map_iter(&map);
+  const char *key;
+  map_init(&refs->map);
+  while ((key = map_next(&map, &iter))) {
+    DLiteInstance **q = map_get(&map, key);
+    if (q && *q) dlite_instance_decref(*q);
+  }
+  map_deinit(&map);
+}
+
+/* Returns a borrowed reference to the instance with given label and uuid.
+   If the collection doesn't already has a reference to it, it is obtained
+   with dlite_instance_get().  Returns NULL on error. */
+static DLiteInstance *refs_get(const DLiteCollection *coll, const char *label,
+                               const char *uuid)
+{
+  DLiteInstance **q, *inst=NULL;
+  char *key;
+  if (!(key = refs_key(label, uuid))) return NULL;
+  if ((q = map_get(&coll->refs->map, key))) {
+    inst = *q;
+  } else {
+    /* `label` and `uuid` may be strings owned by the triplestore, that are
+       overwritten if dlite_instance_get() loads the instance */
+    size_t n = strlen(uuid);
+    key[n] = '\0';
+    inst = dlite_instance_get(key);
+    key[n] = ' ';
+    if (inst && map_set(&coll->refs->map, key, inst)) {
+      err(dliteMemoryError, "allocation failure");
+      dlite_instance_decref(inst);
+      inst = NULL;
+    }
+  }
+  free(key);
+  return inst;
+}
+
+
 /* Initialise additional data in a collection */
 int dlite_collection_init(DLiteInstance *inst)
 {
   DLiteCollection *coll = (DLiteCollection *)inst;
   if (coll->rstore) return errx(dliteSystemError,
                                 "triplestore already initialised");
+  if (!(coll->refs = calloc(1, sizeof(struct _DLiteCollectionRefs))))
+    return err(dliteMemoryError, "allocation failure");
+  map_init(&coll->refs->map);
   if (!(coll->rstore = triplestore_create())) return 1;
   return 0;
 }
@@ -36,31 +137,23 @@ int dlite_collection_init(DLiteInstance *inst)
 int dlite_collection_deinit(DLiteInstance *inst)
 {
   DLiteCollection *coll = (DLiteCollection *)inst;
-  DLiteCollectionState state;
-  DLiteInstance *inst2;
-  const DLiteRelation *r;
 
   /* Release references to all instances. */
-  dlite_collection_init_state(coll, &state);
-  while ((r=dlite_collection_find(coll,&state, NULL, "_has-uuid", NULL,
-                                  NULL))) {
-    if ((inst2 = dlite_instance_get(r->o))) {
-      dlite_instance_decref(inst2);  // remove ref from collection
-      dlite_instance_decref(inst2);  // remove local ref to inst2
-    } else {
-      warnx("cannot remove missing instance: %s", r->o);
-    }
+  if (coll->refs) {
+    refs_release_all(coll->refs);
+    free(coll->refs);
+    coll->refs = NULL;
   }
-  dlite_collection_deinit_state(&state);
 
-  triplestore_free(coll->rstore);
+  if (coll->rstore) triplestore_free(coll->rstore);
+  coll->rstore = NULL;
   return 0;
 }
 
 /* Help function for dlite_collection_gethash().
    Returns 1 if a > b, 0 if a == b and -1 if a < b. */
-int _cmp_triple(const void *a, const void *b) {
-  const Triple *t1=*(Triple **)a, *t2=*(Triple **)b;
+static int _cmp_triple(const void *a, const void *b) {
+  const Triple *t1=a, *t2=b;
   int v;
   if ((v = strcmp(t1->s, t2->s))) return v;
   if ((v = strcmp(t1->p, t2->p))) return v;
@@ -72,13 +165,15 @@ int _cmp_triple(const void *a, const void *b) {
 }
 
 /* Help function for dlite_collection_gethash().
-   Update the the hash with content of triple `t`. */
-void _sha3_update_triple(sha3_context *c, const Triple *t)
+   Update the the hash with the given strings, including their terminating
+   NUL, such that they cannot be confused with each other. */
+static void _sha3_update_relation(sha3_context *c, const char *s,
+                                  const char *p, const char *o, const char *d)
 {
-  sha3_Update(c, t->s, strlen(t->s));
-  sha3_Update(c, t->p, strlen(t->p));
-  sha3_Update(c, t->o, strlen(t->o));
-  if (t->d) sha3_Update(c, t->d, strlen(t->d));
+  sha3_Update(c, s, strlen(s) + 1);
+  sha3_Update(c, p, strlen(p) + 1);
+  sha3_Update(c, o, strlen(o) + 1);
+  if (d) sha3_Update(c, d, strlen(d) + 1);
 }
 
 /* Calculate hash of a collection. */
@@ -90,8 +185,9 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   const uint8_t *buf;
   unsigned bitsize = hashsize * 8;
   TripleState state;
-  const Triple *t, **triples=NULL;
-  size_t i=0, n=triplestore_length(coll->rstore);
+  const Triple *t;
+  Triple *triples=NULL;
+  size_t i, m=0, n=triplestore_length(coll->rstore);
   int retval=1;
 
   /* Initiate calculation of hash */
@@ -104,39 +200,41 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   }
   sha3_Update(&c, coll->meta->uri, strlen(coll->meta->uri));
 
-  /* Calculate the hash of a sorted copy of the relations */
+  /* Calculate the hash of a sorted copy of the relations.  The triples
+     returned by the triplestore may be overwritten by the next call. */
   triplestore_init_state(coll->rstore, &state);
-  if (!(triples = malloc(n * sizeof(Triple *))))
+  if (n && !(triples = calloc(n, sizeof(Triple))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  while ((t = triplestore_next(&state))) {
-    triples[i++] = t;
+  while (m < n && (t = triplestore_next(&state))) {
+    if (!triple_copy(triples + m, t)) goto fail;
+    m++;
   }
-  assert(i == n);
-  qsort((void *)triples, n, sizeof(Triple *), _cmp_triple);
+  if (m != n)
+    FAILCODE1(dliteInconsistentDataError,
+              "cannot access all relations of collection: %s", coll->uuid);
+  if (n) qsort(triples, n, sizeof(Triple), _cmp_triple);
   for (i=0; i<n; i++) {
-    if (strcmp(triples[i]->p, "_has-hash") == 0) continue;
-    if (strcmp(triples[i]->p, "_has-uuid") == 0) {
-      if ((t = triplestore_find_first(coll->rstore,
-                                      triples[i]->s, "_has-hash", NULL,
+    const Triple *r = triples + i;
+    if (strcmp(r->p, "_has-hash") == 0) continue;
+    if (strcmp(r->p, "_has-uuid") == 0) {
+      if ((t = triplestore_find_first(coll->rstore, r->s, "_has-hash", NULL,
                                       NULL))) {
-        _sha3_update_triple(&c, t);
+        _sha3_update_relation(&c, t->s, t->p, t->o, t->d);
       } else {
-        uint8_t hash[DLITE_HASH_SIZE];
-        DLiteInstance * inst;
+        uint8_t ihash[DLITE_HASH_SIZE];
         char hex[2*DLITE_HASH_SIZE+1];
-        if (!(inst = dlite_instance_get(triples[i]->o))) goto fail;
-        if (dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE))
+        DLiteInstance *inst2 = refs_get(coll, r->s, r->o);
+        if (!inst2) goto fail;
+        if (dlite_instance_get_hash(inst2, ihash, DLITE_HASH_SIZE))
           FAILCODE1(dliteValueError,
-                    "error calculating hash of instance '%s'", triples[i]->o);
-        if (strhex_encode(hex, sizeof(hex), hash, DLITE_HASH_SIZE) < 0)
+                    "error calculating hash of instance '%s'", r->o);
+        if (strhex_encode(hex, sizeof(hex), ihash, DLITE_HASH_SIZE) < 0)
           FAILCODE1(dliteValueError,
-                    "failed hex-encoding hash of '%s'", triples[i]->o);
-        sha3_Update(&c, triples[i]->s, strlen(triples[i]->s));
-        sha3_Update(&c, "_has-hash", 9);
-        sha3_Update(&c, hex, 2*DLITE_HASH_SIZE);
+                    "failed hex-encoding hash of '%s'", r->o);
+        _sha3_update_relation(&c, r->s, "_has-hash", hex, NULL);
       }
     }
-    _sha3_update_triple(&c, triples[i]);
+    _sha3_update_relation(&c, r->s, r->p, r->o, r->d);
   }
 
   buf = sha3_Finalize(&c);
@@ -144,7 +242,8 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   retval = 0;
  fail:
   triplestore_deinit_state(&state);
-  free((void *)triples);
+  for (i=0; triples && i<m; i++) triple_clean(triples + i);
+  if (triples) free(triples);
   return retval;
 }
 
@@ -157,31 +256,49 @@ int dlite_collection_getdim(const DLiteInstance *inst, size_t i)
   return triplestore_length(coll->rstore);
 }
 
-/* Loads instance relations to triplestore.  Returns -1 on error. */
+/* Loads instance relations to triplestore.
+
+   Returns non-zero on error.  If the relations could not be loaded, a
+   negative number is returned.  If all relations are loaded, but some
+   instance in the collection is not found, a positive number is returned. */
 int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
 {
   int retval = 0;
   DLiteCollection *coll = (DLiteCollection *)inst;
+  struct _DLiteCollectionRefs old;
   TripleState state;
   const Triple *t;
-  if (i != 0) return errx(dliteIndexError,
-                         "index out of range: %lu", (unsigned long)i);
+  if (i != 0) {
+    errx(dliteIndexError, "index out of range: %lu", (unsigned long)i);
+    return -1;
+  }
   triplestore_clear(coll->rstore);
   if (triplestore_add_triples(coll->rstore, coll->relations, coll->nrelations))
     return -1;
 
   /* Iterate over all newly added triples and load instances corresponding
-     to "_has-uuid" relations. */
+     to "_has-uuid" relations.  Keep the old references until that is done,
+     such that no instance that is still in use is freed. */
+  old = *coll->refs;
+  map_init(&coll->refs->map);
   triplestore_init_state(coll->rstore, &state);
   while ((t = triplestore_find(&state, NULL, "_has-uuid", NULL, NULL))) {
-    DLiteInstance *inst2 = dlite_instance_get(t->o);
-    if (!inst2) retval = errx(dliteStorageLoadError,
-                              "cannot get instance \"%s\" labeled \"%s\" "
-                              "from collection \"%s\".  "
-                              "Is DLITE_STORAGES properly set?",
-                              t->o, t->s, coll->uuid);
+    char *uuid = strdup(t->o), *label = strdup(t->s);
+    if (!uuid || !label) {
+      err(dliteMemoryError, "allocation failure");
+      retval = -1;
+    } else if (!refs_get(coll, label, uuid)) {
+      errx(dliteStorageLoadError,
+           "cannot get instance \"%s\" labeled \"%s\" from collection "
+           "\"%s\".  Is DLITE_STORAGES properly set?",
+           uuid, label, coll->uuid);
+      if (retval == 0) retval = 1;
+    }
+    if (uuid) free(uuid);
+    if (label) free(label);
   }
   triplestore_deinit_state(&state);
+  refs_release_all(&old);
 
   return retval;
 }
@@ -192,23 +309,24 @@ int dlite_collection_saveprop(DLiteInstance *inst, size_t i)
   DLiteCollection *coll = (DLiteCollection *)inst;
   TripleState state;
   const Triple *t;
-  int n, j=0;
+  int n, j=0, stat=0;
 
-  if ((n = dlite_instance_get_dimension_size_by_index(inst, i)) < 0) return -1;
   if (i != 0) return errx(dliteIndexError,
                           "index out of range: %lu", (unsigned long)i);
+  if ((n = dlite_instance_get_dimension_size_by_index(inst, i)) < 0) return -1;
 
   triplestore_init_state(coll->rstore, &state);
-  while ((t = triplestore_next(&state))) {
-    assert(j < (int)coll->nrelations);
+  while (!stat && j < n && (t = triplestore_next(&state))) {
     triple_clean(coll->relations + j);
-    triple_copy(coll->relations + j, t);
+    if (!triple_copy(coll->relations + j, t)) stat = -1;
     j++;
   }
   triplestore_deinit_state(&state);
 
-  assert(j == n);
-  return 0;
+  if (!stat && j != n)
+    stat = err(dliteInconsistentDataError,
+               "cannot access all relations of collection: %s", coll->uuid);
+  return stat;
 }
 
 /*
@@ -222,9 +340,9 @@ int dlite_collection_saveprop(DLiteInstance *inst, size_t i)
  */
 DLiteCollection *dlite_collection_create(const char *id)
 {
-  DLiteMeta *meta = dlite_meta_get(DLITE_COLLECTION_ENTITY);
   size_t  dims[] = {0};
-  return (DLiteCollection *)dlite_instance_create(meta,  dims, id);
+  return (DLiteCollection *)
+    dlite_instance_create_from_id(DLITE_COLLECTION_ENTITY, dims, id);
 }
 
 
@@ -251,7 +369,7 @@ void dlite_collection_decref(DLiteCollection *coll)
  */
 DLiteCollection *dlite_collection_from_instance(DLiteInstance *inst)
 {
-  if (strcmp(inst->meta->uuid, DLITE_COLLECTION_ENTITY) != 0)
+  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0)
     return errx(dliteTypeError,
                 "cannot cast instance %s to a collection", inst->uuid), NULL;
   return (DLiteCollection *)inst;
@@ -276,38 +394,54 @@ DLiteInstance *dlite_collection_to_instance(DLiteCollection *coll)
 DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
                                        int lazy)
 {
-  DLiteCollection *coll;
+  DLiteCollection *coll=NULL;
   DLiteCollectionState state;
+  DLiteInstance *inst;
   const Triple *t, *t2;
+  char *label=NULL, *uuid=NULL;
+  int hot=0, iterating=0, failed=1;
 
-  if (!(coll = (DLiteCollection *)dlite_instance_load(s, id)))
-    return NULL;
+  /* Make it possible to find the instances of the collection in `s`.
+     Generic storages are already hotlisted. */
+  if (!(s->flags & dliteGeneric)) hot = !dlite_storage_hotlist_add(s);
 
-  if (lazy) {
-    //dlite_storage_paths_append(s->location);
-    return coll;
+  if (!(inst = dlite_instance_load(s, id))) goto fail;
+  if (!(coll = dlite_collection_from_instance(inst))) {
+    dlite_instance_decref(inst);
+    goto fail;
   }
 
-  dlite_collection_init_state(coll, &state);
-  while ((t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
-                                    NULL))) {
-    if (!(t2 = dlite_collection_find_first(coll, t->s, "_has-meta", NULL,
-                                           NULL)))
-      FAILCODE1(dliteInconsistentDataError,
-                "collection inconsistency - no \"_has-meta\" relation for "
-                "instance: %s", t->s);
-    if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0) {
-      if (!dlite_collection_load(s, t->o, 0)) goto fail;
-    } else {
-      if (!dlite_instance_load(s, t->o)) goto fail;
+  if (!lazy) {
+    dlite_collection_init_state(coll, &state);
+    iterating = 1;
+    while ((t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
+                                      NULL))) {
+      /* The content of `t` is overwritten below, so make a copy */
+      if (!(label = strdup(t->s)) || !(uuid = strdup(t->o)))
+        FAILCODE(dliteMemoryError, "allocation failure");
+      if (!(t2 = dlite_collection_find_first(coll, label, "_has-meta", NULL,
+                                             NULL)))
+        FAILCODE1(dliteInconsistentDataError,
+                  "collection inconsistency - no \"_has-meta\" relation for "
+                  "instance: %s", label);
+      if (!refs_get(coll, label, uuid)) goto fail;
+      free(label);
+      free(uuid);
+      label = uuid = NULL;
     }
   }
-  dlite_collection_deinit_state(&state);
-  return coll;
+
+  failed = 0;
  fail:
-  dlite_collection_deinit_state(&state);
-  if (coll) dlite_collection_decref(coll);
-  return NULL;
+  if (iterating) dlite_collection_deinit_state(&state);
+  if (label) free(label);
+  if (uuid) free(uuid);
+  if (hot) dlite_storage_hotlist_remove(s);
+  if (failed && coll) {
+    dlite_collection_decref(coll);
+    coll = NULL;
+  }
+  return coll;
 }
 
 /*
@@ -322,10 +456,20 @@ DLiteCollection *dlite_collection_load_url(const char *url, int lazy)
   char *str=NULL, *driver=NULL, *location=NULL, *options=NULL, *id=NULL;
   DLiteStorage *s=NULL;
   DLiteCollection *coll=NULL;
+  DLiteInstance *inst=NULL;
   if (!(str = strdup(url))) FAILCODE(dliteMemoryError, "allocation failure");
   if (dlite_split_url(str, &driver, &location, &options, &id)) goto fail;
-  if (!id || !(coll = (DLiteCollection *)dlite_instance_get(id))) {
-    err_clear();
+  if (id && *id) {
+   ErrTry:
+    if ((inst = dlite_instance_has(id, false))) dlite_instance_incref(inst);
+   ErrOther:
+    break;
+   ErrEnd;
+  }
+  if (inst) {
+    if (!(coll = dlite_collection_from_instance(inst)))
+      dlite_instance_decref(inst);
+  } else {
     if (!(s = dlite_storage_open(driver, location, options))) goto fail;
     if (!(coll = dlite_collection_load(s, id, lazy))) goto fail;
   }
@@ -345,11 +489,17 @@ int dlite_collection_save(DLiteCollection *coll, DLiteStorage *s)
   DLiteCollectionState state;
   DLiteInstance *inst;
   const DLiteMeta *e = dlite_get_collection_entity();
+  const DLiteRelation *r;
   int stat=0;
   if ((stat = dlite_instance_save(s, (DLiteInstance *)coll))) return stat;
   dlite_collection_init_state(coll, &state);
-  while ((inst = dlite_collection_next(coll, &state))) {
-    if (inst->meta == e)
+  while ((r = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
+                                    NULL))) {
+    if (!(inst = refs_get(coll, r->s, r->o)))
+      stat = errx(dliteStorageSaveError,
+                  "cannot save missing instance of collection: %s",
+                  coll->uuid);
+    else if (inst->meta == e)
       stat |= dlite_collection_save((DLiteCollection *)inst, s);
     else
       stat |= dlite_instance_save(s, inst);
@@ -475,6 +625,18 @@ const DLiteRelation *dlite_collection_find_first(const DLiteCollection *coll,
   return dlite_collection_find(coll, NULL, s, p, o, d);
 }
 
+/* Removes all relations that refer to the instance with given label. */
+static void remove_instance_relations(DLiteCollection *coll,
+                                      const char *label)
+{
+  dlite_collection_remove_relations(coll, label, "_is-a", "Instance", NULL);
+  dlite_collection_remove_relations(coll, label, "_has-uuid", NULL, NULL);
+  dlite_collection_remove_relations(coll, label, "_has-meta", NULL, NULL);
+  dlite_collection_remove_relations(coll, label, "_has-hash", NULL, NULL);
+  dlite_collection_remove_relations(coll, label, "_has-dimmap", NULL, NULL);
+}
+
+
 /*
   Adds instance `inst` to collection, making `coll` the owner of the instance.
   Hence `coll` "steals" the reference to `inst`.
@@ -484,16 +646,35 @@ const DLiteRelation *dlite_collection_find_first(const DLiteCollection *coll,
 int dlite_collection_add_new(DLiteCollection *coll, const char *label,
                              DLiteInstance *inst)
 {
+  char *key;
+  int retval=1;
   if (dlite_collection_find(coll, NULL, label, "_is-a", "Instance", NULL))
     return errx(dliteValueError,
                 "instance with label '%s' is already in the collection",
                 label);
+  if (!(key = refs_key(label, inst->uuid))) return 1;
 
-  dlite_collection_add_relation(coll, label, "_is-a", "Instance", NULL);
-  dlite_collection_add_relation(coll, label, "_has-uuid", inst->uuid,
-                                "xsd:anyURI");
-  dlite_collection_add_relation(coll, label, "_has-meta", inst->meta->uri, NULL);
-  return 0;
+  /* Steal the reference when there is nothing more that can fail, since the
+     caller keeps it on error. */
+  dlite_instance_incref(inst);
+  if (refs_steal(coll, key, inst)) {
+    dlite_instance_decref(inst);
+    goto fail;
+  }
+  if (dlite_collection_add_relation(coll, label, "_is-a", "Instance", NULL) ||
+      dlite_collection_add_relation(coll, label, "_has-uuid", inst->uuid,
+                                    "xsd:anyURI") ||
+      dlite_collection_add_relation(coll, label, "_has-meta",
+                                    inst->meta->uri, NULL)) {
+    remove_instance_relations(coll, label);
+    refs_release_label(coll, label);
+    goto fail;
+  }
+  dlite_instance_decref(inst);
+  retval = 0;
+ fail:
+  free(key);
+  return retval;
 }
 
 
@@ -515,41 +696,53 @@ int dlite_collection_add(DLiteCollection *coll, const char *label,
  */
 int dlite_collection_remove(DLiteCollection *coll, const char *label)
 {
-  DLiteCollectionState state;
-  DLiteInstance *inst;
   const DLiteRelation *r;
-  if (dlite_collection_remove_relations(coll, label, "_is-a", "Instance", NULL) > 0) {
-    r = dlite_collection_find(coll, NULL, label, "_has-uuid", NULL, NULL);
-    assert(r);
-
-    /* Removes reference hold by collection to the instance. We have
-     to call dlite_instance_decref() twice, since dlite_instance_get()
-     returns a new reference. */
-    if ((inst = dlite_instance_get(r->o))) {
-      dlite_instance_decref(inst);
-      dlite_instance_decref(inst);
-    } else {
-      warn("cannot remove missing instance: %s", r->o);
-    }
+  char *uuid=NULL, *metauri=NULL;
+  int retval=1;
+  if (!dlite_collection_find(coll, NULL, label, "_is-a", "Instance", NULL))
+    return 1;
+  if ((r = dlite_collection_find(coll, NULL, label, "_has-uuid", NULL, NULL))
+      && !(uuid = strdup(r->o)))
+    FAILCODE(dliteMemoryError, "allocation failure");
+  if ((r = dlite_collection_find(coll, NULL, label, "_has-meta", NULL, NULL))
+      && !(metauri = strdup(r->o)))
+    FAILCODE(dliteMemoryError, "allocation failure");
 
-    /* FIXME - there is something wrong here... */
-    //dlite_collection_init_state(coll, &state);
-    //while ((r=dlite_collection_find(coll, &state, label, "_has-dimmap", NULL)))
-    //  triplestore_remove_by_id(coll->rstore, r->o);
-    //*dlite_collection_deinit_state(&state);
-    UNUSED(state);
-
-    dlite_collection_remove_relations(coll, label, "_has-uuid", NULL, NULL);
-    dlite_collection_remove_relations(coll, label, "_has-meta", NULL, NULL);
-    dlite_collection_remove_relations(coll, label, "_has-dimmap", NULL, NULL);
-    return 0;
+  if (dlite_collection_remove_relations(coll, label, "_has-hash",
+                                        NULL, NULL) < 0 ||
+      dlite_collection_remove_relations(coll, label, "_has-dimmap",
+                                        NULL, NULL) < 0 ||
+      dlite_collection_remove_relations(coll, label, "_is-a", "Instance",
+                                        NULL) < 0) goto fail;
+  if (dlite_collection_remove_relations(coll, label, "_has-meta",
+                                        NULL, NULL) < 0 ||
+      dlite_collection_remove_relations(coll, label, "_has-uuid",
+                                        NULL, NULL) < 0) {
+    /* Keep the instance in the collection on failure. */
+    dlite_collection_add_relation(coll, label, "_is-a", "Instance", NULL);
+    if (metauri)
+      dlite_collection_add_relation(coll, label, "_has-meta", metauri, NULL);
+    if (uuid)
+      dlite_collection_add_relation(coll, label, "_has-uuid", uuid,
+                                    "xsd:anyURI");
+    goto fail;
   }
-  return 1;
+
+  /* Removes references hold by collection to the instance. */
+  refs_release_label(coll, label);
+  retval = 0;
+ fail:
+  if (uuid) free(uuid);
+  if (metauri) free(metauri);
+  return retval;
 }
 
 
 /*
   Returns borrowed reference to instance with given label or NULL on error.
+
+  The instance is owned by the collection.  If it isn't already loaded, it
+  will be loaded.
  */
 const DLiteInstance *dlite_collection_get(const DLiteCollection *coll,
                                           const char *label)
@@ -557,16 +750,10 @@ const DLiteInstance *dlite_collection_get(const DLiteCollection *coll,
   const DLiteRelation *r;
   if ((r = dlite_collection_find(coll, NULL, label, "_has-uuid", NULL,
                                  NULL))) {
-    DLiteInstance *inst = dlite_instance_get(r->o);
+    DLiteInstance *inst = refs_get(coll, label, r->o);
     if (!inst) FAILCODE2(dliteKeyError,
-                         "no such instance '%s' in collection '%s'",
-                         r->o, coll->uuid);
-
-    //assert(inst->_refcount >= 2);
-    //dlite_instance_decref(inst);
-
-    /* FIXME - this looks like a hack, should be solved properly... */
-    if (inst->_refcount >= 2) dlite_instance_decref(inst);
+                         "cannot get instance labeled '%s' in collection '%s'",
+                         label, coll->uuid);
     return inst;
   }
   errx(dliteValueError, "cannot load instance '%s' from collection", label);
@@ -575,7 +762,7 @@ const DLiteInstance *dlite_collection_get(const DLiteCollection *coll,
 }
 
 /*
-  Returns borrowed reference to instance with given id or NULL on error.
+  Returns a new reference to instance with given id or NULL on error.
  */
 const DLiteInstance *dlite_collection_get_id(const DLiteCollection *coll,
                                              const char *id)
@@ -583,8 +770,11 @@ const DLiteInstance *dlite_collection_get_id(const DLiteCollection *coll,
   const DLiteRelation *r;
   char uuid[DLITE_UUID_LENGTH+1];
   if (dlite_get_uuid(uuid, id) < 0) return NULL;
-  if ((r = dlite_collection_find(coll, NULL, NULL, "_has-uuid", uuid, NULL)))
-    return dlite_instance_get(id);
+  if ((r = dlite_collection_find(coll, NULL, NULL, "_has-uuid", uuid, NULL))) {
+    DLiteInstance *inst = refs_get(coll, r->s, uuid);
+    if (inst) dlite_instance_incref(inst);
+    return inst;
+  }
   return NULL;
 }
 
@@ -643,12 +833,10 @@ int dlite_collection_has_id(const DLiteCollection *coll, const char *id)
 DLiteInstance *dlite_collection_next(DLiteCollection *coll,
 				     DLiteCollectionState *state)
 {
-  DLiteInstance *inst = dlite_collection_next_new(coll, state);
-  if (inst) {
-    assert(inst->_refcount >= 2);
-    dlite_instance_decref(inst);
-  }
-  return inst;
+  const Triple *t;
+  if ((t = triplestore_find(state, NULL, "_has-uuid", NULL, NULL)))
+    return refs_get(coll, t->s, t->o);
+  return NULL;
 }
 
 /*
@@ -660,11 +848,9 @@ DLiteInstance *dlite_collection_next(DLiteCollection *coll,
 DLiteInstance *dlite_collection_next_new(DLiteCollection *coll,
                                          DLiteCollectionState *state)
 {
-  UNUSED(coll);
-  const Triple *t;
-  while ((t = triplestore_find(state, NULL, "_has-uuid", NULL, NULL)))
-    return dlite_instance_get(t->o);
-  return NULL;
+  DLiteInstance *inst = dlite_collection_next(coll, state);
+  if (inst) dlite_instance_incref(inst);
+  return inst;
 }
 
 
diff --git a/src/dlite-collection.h b/src/dlite-collection.h
index 49c802c..9fb027e 100644
--- a/src/dlite-collection.h
+++ b/src/dlite-collection.h
@@ -42,6 +42,8 @@ typedef struct _DLiteCollection {
   /* -- extended header */
   DLiteInstance_HEAD
   TripleStore *rstore;       /*!< TripleStore managing the relations. */
+  struct _DLiteCollectionRefs *refs; /*!< References to the instances owned
+                                          by the collection. */
 
   /* -- dimensions */
   size_t nrelations;         /*!< Number of relations. */
@@ -97,7 +99,11 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
 int dlite_collection_getdim(const DLiteInstance *inst, size_t i);
 
 /**
-  Loads instance relations to triplestore.  Returns -1 on error.
+  Loads instance relations to triplestore.
+
+  Returns non-zero on error.  If the relations could not be loaded, a
+  negative number is returned.  If all relations are loaded, but some
+  instance in the collection is not found, a positive number is returned.
 */
 int dlite_collection_loadprop(const DLiteInstance *inst, size_t i);
 
@@ -263,7 +269,7 @@ const DLiteInstance *dlite_collection_get(const DLiteCollection *coll,
                                           const char *label);
 
 /**
-  Returns borrowed reference to instance with given id or NULL on error.
+  Returns a new reference to instance with given id or NULL on error.
  */
 const DLiteInstance *dlite_collection_get_id(const DLiteCollection *coll,
                                              const char *id);
-- 
2.43.0


From 21571f728105253a9bf2fed0629cfb11ede8412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:22 +0000
Subject: [PATCH 049/100] fix: set_parent() with the current parent must not
 release it first

---
 src/dlite-entity.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 9986a71..8287f46 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2559,17 +2559,17 @@ int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
   if (dlite_instance_get_hash(parent, hash, DLITE_HASH_SIZE))
     return err(-1, "Error calculating hash of parent instance \"%s\"",
                (parent->uri) ? parent->uri : parent->uuid);
-  if (p) {
-    if (p->parent) dlite_instance_decref((DLiteInstance *)p->parent);
-  } else {
+  if (!p) {
     if (!(p = calloc(1, sizeof(DLiteParent))))
       return err(-1, "Allocation failure");
     inst->_parent = p;
   }
+  /* Hold the new parent before releasing the old one - it may be the same */
+  dlite_instance_incref((DLiteInstance *)parent);
+  if (p->parent) dlite_instance_decref((DLiteInstance *)p->parent);
   p->parent = parent;
   strncpy(p->uuid, parent->uuid, DLITE_UUID_LENGTH+1);
   memcpy(p->hash, hash, DLITE_HASH_SIZE);
-  dlite_instance_incref((DLiteInstance *)p->parent);
   return 0;
 }
 
-- 
2.43.0


From 6e5d21037f939f8f4bab6f4c78120625ea8601b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 050/100] fix: relations of an immutable collection can not be
 changed

---
 src/dlite-collection.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index bf5f4b9..ef4a021 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -535,7 +535,11 @@ int dlite_collection_save_url(DLiteCollection *coll, const char *url)
 int dlite_collection_add_relation(DLiteCollection *coll, const char *s,
                                   const char *p, const char *o, const char *d)
 {
-  int stat = triplestore_add(coll->rstore, s, p, o, d);
+  int stat;
+  if (coll->_flags & dliteImmutable)
+    return err(dliteValueError, "cannot add relation to immutable "
+               "collection: %s", (coll->uri) ? coll->uri : coll->uuid);
+  stat = triplestore_add(coll->rstore, s, p, o, d);
   if (!stat)
     DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
   return stat;
@@ -550,7 +554,11 @@ int dlite_collection_remove_relations(DLiteCollection *coll, const char *s,
                                       const char *p, const char *o,
                                       const char *d)
 {
-  int retval = triplestore_remove(coll->rstore, s, p, o, d);
+  int retval;
+  if (coll->_flags & dliteImmutable)
+    return err(-1, "cannot remove relations from immutable collection: %s",
+               (coll->uri) ? coll->uri : coll->uuid);
+  retval = triplestore_remove(coll->rstore, s, p, o, d);
   if (retval > -1)
     DLITE_PROP_DIM(coll, 0, 0) = coll->nrelations;
   return retval;
-- 
2.43.0


From a650cad9992f37fed502253838c19d32a38b63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 051/100] fix: verifying the hash of one instance must not
 require its parent

---
 src/dlite-entity.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 8287f46..28416a1 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2653,14 +2653,14 @@ int dlite_instance_verify_hash(const DLiteInstance *inst, uint8_t *hash,
       return err(1, "hash does not correspond to the value of instance \"%s\"",
                  (inst->uri) ? inst->uri : inst->uuid);
   }
-  if (!inst->_parent) return 0;
+  if (!inst->_parent || (hash && !recursive)) return 0;
   if (!(parent = inst->_parent->parent))
     parent = dlite_instance_get(inst->_parent->uuid);
 
   if (!parent)
     stat = err(3, "cannot retrieve parent of instance \"%s\"",
                (inst->uri) ? inst->uri : inst->uuid);
-  else if (recursive || !hash)
+  else
     stat = dlite_instance_verify_hash(parent, inst->_parent->hash, recursive);
 
   if (parent && !inst->_parent->parent)
-- 
2.43.0


From 88f651cd7c5b449b5ab10866abd9dea68fc245ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 052/100] fix: get_hash() must fail when a property cannot be
 read

---
 src/dlite-entity.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 28416a1..cb61050 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2314,22 +2314,24 @@ int dlite_instance_get_hash(const DLiteInstance *inst,
     DLiteProperty *p = DLITE_PROP_DESCR(inst, i);
     size_t j, len = 1;
     for (j=0; (int)j<p->ndims; j++) len *= DLITE_PROP_DIM(inst, i, j);
+    if (!ptr && len)
+      return err(1, "cannot get property \"%s\" of instance \"%s\"",
+                 p->name, (inst->uri) ? inst->uri : inst->uuid);
     if (dlite_type_is_allocated(p->type)) {
       char *v = ptr;
       for (j=0; j<len; j++, v+=p->size)
-        if ((retval = dlite_type_update_sha3(&c, v, p->type, p->size))) {
-          err(1, "error updating hash for property \"%s\" of instance \"%s\"",
-              p->name, (inst->uri) ? inst->uri : inst->uuid);
-          break;
-        }
-    } else {
+        if ((retval = dlite_type_update_sha3(&c, v, p->type, p->size)))
+          return err(retval, "error updating hash for property \"%s\" of "
+                     "instance \"%s\"",
+                     p->name, (inst->uri) ? inst->uri : inst->uuid);
+    } else if (len) {
       sha3_Update(&c, ptr, len*p->size);
     }
   }
 
   buf = sha3_Finalize(&c);
   memcpy(hash, buf, hashsize);
-  return retval;
+  return 0;
 }
 
 /********************************************************************
-- 
2.43.0


From 615d8c28b1eb438743d6898bace9b8ceb9fa5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 053/100] fix: seeding the 32-bit random generator from the
 system must set its state

---
 src/utils/rng.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/rng.c b/src/utils/rng.c
index a5e98c7..6af1387 100644
--- a/src/utils/rng.c
+++ b/src/utils/rng.c
@@ -217,9 +217,10 @@ double drand_msws32_r(MSWS32State *s)
 
 int srand_msws32_r(MSWS32State *s, uint64_t seed)
 {
-  if (seed == 0) return random_seed(&seed, sizeof(seed));
+  int stat=0;
+  if (seed == 0) stat = random_seed(&seed, sizeof(seed));
   s->x = s->w = s->s = rand_digits(seed);
-  return 0;
+  return stat;
 }
 
 
-- 
2.43.0


From a4a6fe9636561d4f39837199f68bb68c4119801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:31 +0000
Subject: [PATCH 054/100] fix: the hash of a collection must tell whether an
 object has a datatype

---
 src/dlite-collection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index ef4a021..2047ff2 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -173,6 +173,8 @@ static void _sha3_update_relation(sha3_context *c, const char *s,
   sha3_Update(c, s, strlen(s) + 1);
   sha3_Update(c, p, strlen(p) + 1);
   sha3_Update(c, o, strlen(o) + 1);
+  /* tell an object with datatype from one without */
+  sha3_Update(c, (d) ? "d" : "", 1);
   if (d) sha3_Update(c, d, strlen(d) + 1);
 }
 
-- 
2.43.0


From 5b3f9763d0a26adab87b5aa56c6c5f5d65f0166d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:29 +0000
Subject: [PATCH 055/100] fix: opening a storage must fail when its options
 cannot be copied

---
 storages/hdf5/dh5lite.c            | 1 +
 storages/json/dlite-json-storage.c | 2 ++
 storages/rdf/dlite-rdf.c           | 1 +
 3 files changed, 4 insertions(+)

diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index ae51a5b..dbca236 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -440,6 +440,7 @@ dh5_open(const DLiteStoragePlugin *api, const char *uri, const char *options)
   const char **mode = &opts[0].value;
   UNUSED(api);
 
+  if (options && !optcopy) FAILCODE(dliteMemoryError, "allocation failure");
   if (dlite_option_parse(optcopy, opts, 0)) goto fail;
 
   H5open();  /* Opens hdf5 library */
diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index ae68dd9..d44a950 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -89,6 +89,7 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
 
   /* parse options */
   char *optcopy = (options) ? strdup(options) : NULL;
+  if (options && !optcopy) FAILCODE(dliteMemoryError, "allocation failure");
   if (dlite_option_parse(optcopy, opts, 0)) goto fail;
 
   char mode = *opts[0].value;
@@ -378,6 +379,7 @@ int json_memsave(const DLiteStoragePlugin *api,
   };
   char *optcopy = (options) ? strdup(options) : NULL;
   UNUSED(api);
+  if (options && !optcopy) FAILCODE(dliteMemoryError, "allocation failure");
   if (dlite_option_parse(optcopy, opts, 0)) goto fail;
   indent = atoi(opts[0].value);
   if ((*opts[1].value) ? atob(opts[1].value) : dlite_instance_is_meta(inst))
diff --git a/storages/rdf/dlite-rdf.c b/storages/rdf/dlite-rdf.c
index cf6a4e9..d322fce 100644
--- a/storages/rdf/dlite-rdf.c
+++ b/storages/rdf/dlite-rdf.c
@@ -171,6 +171,7 @@ DLiteStorage *rdf_open(const DLiteStoragePlugin *api, const char *uri,
   if (!(s = calloc(1, sizeof(RdfStorage)))) FAILCODE(dliteMemoryError, "allocation failure");
 
   /* parse options */
+  if (options && !optcopy) FAILCODE(dliteMemoryError, "allocation failure");
   if (dlite_option_parse(optcopy, opts, 0)) goto fail;
   mode = opts[0].value;
   s->store   =   (opts[1].value) ? strdup(opts[1].value) : NULL;
-- 
2.43.0


From 42eaf4985c78888ef770569af98a69fd340b03c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:38 +0000
Subject: [PATCH 056/100] fix: report allocation failures when parsing metadata
 instead of dropping fields

---
 src/dlite-entity.c | 33 +++++++++++++++++++++++++--------
 src/dlite-type.c   | 36 +++++++++++++++++++++++-------------
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index cb61050..5566f8e 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3465,6 +3465,8 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         memset(dim, 0, sizeof(DLiteDimension));
         dim->name = strndup(key, keylen);
         dim->description = dup_jsonstring(src, item);
+        if (!dim->name || !dim->description)
+          return err(dliteMemoryError, "allocation failure");
       } else if (item->type == JSMN_OBJECT) {
         int i;
         for (i=0; i < item->size; i++, dim++) {
@@ -3475,6 +3477,8 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
           memset(dim, 0, sizeof(DLiteDimension));
           dim->name = strndup(src + k->start, k->end - k->start);
           dim->description = dup_jsonstring(src, v);
+          if (!dim->name || !dim->description)
+            return err(dliteMemoryError, "allocation failure");
         }
       } else
         return err(dliteValueError,
@@ -3497,7 +3501,8 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         dlite_property_clear(prop);
 
         assert(v->type == JSMN_STRING);  // key must be a string
-        prop->name = strndup(src + v->start, v->end - v->start);
+        if (!(prop->name = strndup(src + v->start, v->end - v->start)))
+          return err(dliteMemoryError, "allocation failure");
         v++;
 
         if (v->type != JSMN_OBJECT) {
@@ -3521,6 +3526,10 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
           prop->ref = strndup(src + t->start, t->end - t->start);
         else if (prop->type == dliteRef && (t = jsmn_item(src, v, "type")))
           prop->ref = strndup(src + t->start, t->end - t->start);
+        if (t && !prop->ref) {
+          dlite_property_clear(prop);
+          return err(dliteMemoryError, "allocation failure");
+        }
 
         if ((t = jsmn_item(src, v, "dims")) ||
             (t = jsmn_item(src, v, "shape"))) {
@@ -3530,8 +3539,11 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
                         "property \"%.*s\": shape should be an array",
                         keylen, key);
           }
+          if (t->size && !(prop->shape = calloc(t->size, sizeof(char *)))) {
+            dlite_property_clear(prop);
+            return err(dliteMemoryError, "allocation failure");
+          }
           prop->ndims = t->size;
-          prop->shape = calloc(prop->ndims, sizeof(char *));
           for (j=0; j < prop->ndims; j++) {
             if (!(d = jsmn_element(src, t, j))) {
               dlite_property_clear(prop);
@@ -3540,15 +3552,20 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
                          "\"%.*s\"", t->end - t->start, src + t->start,
                          keylen, key);
             }
-            prop->shape[j] = strndup(src + d->start, d->end - d->start);
+            if (!(prop->shape[j] = strndup(src+d->start, d->end - d->start))) {
+              dlite_property_clear(prop);
+              return err(dliteMemoryError, "allocation failure");
+            }
           }
         }
 
-        if ((t = jsmn_item(src, v, "unit")))
-          prop->unit = dup_jsonstring(src, t);
-
-        if ((t = jsmn_item(src, v, "description")))
-          prop->description = dup_jsonstring(src, t);
+        if (((t = jsmn_item(src, v, "unit")) &&
+             !(prop->unit = dup_jsonstring(src, t))) ||
+            ((t = jsmn_item(src, v, "description")) &&
+             !(prop->description = dup_jsonstring(src, t)))) {
+          dlite_property_clear(prop);
+          return err(dliteMemoryError, "allocation failure");
+        }
 
         v += jsmn_count(v) + 1;
       }
diff --git a/src/dlite-type.c b/src/dlite-type.c
index 5f387a8..b08e5ee 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1203,9 +1203,11 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return err(dliteValueError, "missing dimension name: '%s'", src);
-      dim->name = strndup(src + t->start, t->end - t->start);
-      if ((t = jsmn_item(src, tokens, "description")))
-        dim->description = dup_jsonstring(src, t);
+      if (!(dim->name = strndup(src + t->start, t->end - t->start)))
+        return err(dliteMemoryError, "allocation failure");
+      if ((t = jsmn_item(src, tokens, "description")) &&
+          !(dim->description = dup_jsonstring(src, t)))
+        return err(dliteMemoryError, "allocation failure");
     }
     break;
 
@@ -1234,7 +1236,8 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
 
       if (!(t = jsmn_item(src, tokens, "name")))
         return errx(dliteParseError, "missing property name: '%s'", src);
-      prop->name = strndup(src + t->start, t->end - t->start);
+      if (!(prop->name = strndup(src + t->start, t->end - t->start)))
+        return err(dliteMemoryError, "allocation failure");
 
       if (!(t = jsmn_item(src, tokens, "type")))
         return dlite_property_clear(prop),
@@ -1243,30 +1246,37 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
                                                   &prop->type, &prop->size)))
         return dlite_property_clear(prop), errnum;
 
-      if ((t = jsmn_item(src, tokens, "$ref")))
-        prop->ref = strndup(src + t->start, t->end - t->start);
+      if ((t = jsmn_item(src, tokens, "$ref")) &&
+          !(prop->ref = strndup(src + t->start, t->end - t->start)))
+        return dlite_property_clear(prop),
+          err(dliteMemoryError, "allocation failure");
 
       if ((t = jsmn_item(src, tokens, "shape")) ||
           (t = jsmn_item(src, tokens, "dims"))) {
         if (t->type != JSMN_ARRAY)
           return dlite_property_clear(prop),
             errx(dliteParseError, "property shape should be an array");
+        if (t->size && !(prop->shape = calloc(t->size, sizeof(char *))))
+          return dlite_property_clear(prop),
+            err(dliteMemoryError, "allocation failure");
         prop->ndims = t->size;
-        prop->shape = calloc(prop->ndims, sizeof(char *));
         for (i=0; i < prop->ndims; i++) {
           if (!(d = jsmn_element(src, t, i)))
             return dlite_property_clear(prop),
               err(dliteParseError, "error parsing property dimensions: %.*s",
                        t->end - t->start, src + t->start);
-          prop->shape[i] = strndup(src + d->start, d->end - d->start);
+          if (!(prop->shape[i] = strndup(src + d->start, d->end - d->start)))
+            return dlite_property_clear(prop),
+              err(dliteMemoryError, "allocation failure");
         }
       }
 
-      if ((t = jsmn_item(src, tokens, "unit")))
-        prop->unit = dup_jsonstring(src, t);
-
-      if ((t = jsmn_item(src, tokens, "description")))
-        prop->description = dup_jsonstring(src, t);
+      if (((t = jsmn_item(src, tokens, "unit")) &&
+           !(prop->unit = dup_jsonstring(src, t))) ||
+          ((t = jsmn_item(src, tokens, "description")) &&
+           !(prop->description = dup_jsonstring(src, t))))
+        return dlite_property_clear(prop),
+          err(dliteMemoryError, "allocation failure");
     }
     break;
 
-- 
2.43.0


From 43b7e1fb9a30260856f85c1926fcfefef71a5302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:38 +0000
Subject: [PATCH 057/100] fix: JSON iterator matches metadata URI as a glob and
 reports failures

---
 src/dlite-json.c                   | 50 ++++++++++++++++++++++++------
 src/dlite-json.h                   |  8 ++++-
 storages/json/dlite-json-storage.c |  3 +-
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 784cb5f..8ed80ad 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -9,6 +9,7 @@
 #include "utils/err.h"
 #include "utils/compat.h"
 #include "utils/strutils.h"
+#include "utils/globmatch.h"
 
 #include "dlite.h"
 #include "dlite-macros.h"
@@ -1219,7 +1220,9 @@ const char *dlite_json_next(DLiteJsonIter *iter, int *length)
 /* Iterater struct */
 struct _DLiteJStoreIter {
   JStoreIter jiter;                    /*!< jstore iterater */
+  char *metaid;                        /*!< ID or glob pattern for metadata */
   char metauuid[DLITE_UUID_LENGTH+1];  /*!< UUID of metadata */
+  int status;                          /*!< non-zero if iteration failed */
   jsmntok_t *tokens;                   /*!< pointer to allocated tokens */
   unsigned int ntokens;                /*!< number of allocated tokens */
 };
@@ -1358,7 +1361,7 @@ DLiteInstance *dlite_jstore_get(JStore *js, const char *id)
 /*
   Initiate iterator `init` from json store `js`.
   If `metaid` is provided, the iterator will only iterate over instances
-  of this metadata.
+  of this metadata.  It may be a glob pattern matching the metadata URI.
 
   Returns a new iterator or NULL on error.
  */
@@ -1368,9 +1371,15 @@ DLiteJStoreIter *dlite_jstore_iter_create(JStore *js, const char *metaid)
   if (!(iter = calloc(1, sizeof(DLiteJStoreIter))))
     FAILCODE(dliteMemoryError, "allocation failure");
   if (jstore_iter_init(js, &iter->jiter)) goto fail;
-  if (metaid && dlite_get_uuid(iter->metauuid, metaid) < 0) goto fail;
- fail:
+  if (metaid) {
+    if (dlite_get_uuid(iter->metauuid, metaid) < 0) goto fail;
+    if (!(iter->metaid = strdup(metaid)))
+      FAILCODE(dliteMemoryError, "allocation failure");
+  }
   return iter;
+ fail:
+  if (iter) free(iter);
+  return NULL;
 }
 
 /*
@@ -1379,6 +1388,7 @@ DLiteJStoreIter *dlite_jstore_iter_create(JStore *js, const char *metaid)
 int dlite_jstore_iter_free(DLiteJStoreIter *iter)
 {
   jstore_iter_deinit(&iter->jiter);
+  if (iter->metaid) free(iter->metaid);
   if (iter->tokens) free(iter->tokens);
   free(iter);
   return 0;
@@ -1393,11 +1403,13 @@ const char *dlite_jstore_iter_next(DLiteJStoreIter *iter)
   const char *iid;
   JStore *js = iter->jiter.js;
   jsmn_parser parser;
+  if (iter->status) return NULL;
   while ((iid = jstore_iter_next(&iter->jiter))) {
-    if (iter->metauuid[0]) {
+    if (iter->metaid) {
       char metauuid[DLITE_UUID_LENGTH+1];
+      char *metauri;
       const char *val = jstore_get(js, iid);
-      int r;
+      int r, match;
 
       jsmn_init(&parser);
       if ((r = jsmn_parse_alloc(&parser, val, strlen(val),
@@ -1406,16 +1418,34 @@ const char *dlite_jstore_iter_next(DLiteJStoreIter *iter)
           err(dliteParseError, "invalid json input: \"%s\"", val);
         else
           err(dliteParseError, "json parse error: \"%s\"", jsmn_strerror(r));
+        if (r == JSMN_ERROR_NOMEM) {
+          iter->status = dliteMemoryError;
+          return NULL;
+        }
         continue;
       }
-      if (get_meta_uuid(metauuid, val, iter->tokens)) {
-        err(dliteMissingMetadataError,
-            "json input has no meta uri: \"%s\"", val);
-        continue;
+      if (!(metauri = get_meta_uri(val, iter->tokens))) {
+        iter->status = err(dliteMissingMetadataError,
+                           "json input has no meta uri: \"%s\"", val);
+        return NULL;
       }
-      if (strcmp(metauuid, iter->metauuid)) continue;
+      match = globmatch(iter->metaid, metauri) == 0 ||
+        (dlite_get_uuid(metauuid, metauri) >= 0 &&
+         strcmp(metauuid, iter->metauuid) == 0);
+      free(metauri);
+      if (!match) continue;
     }
     return iid;
   }
   return NULL;
 }
+
+/*
+  Returns non-zero if dlite_jstore_iter_next() has returned NULL because
+  of an error.
+ */
+int dlite_jstore_iter_status(const DLiteJStoreIter *iter)
+{
+  return iter->status;
+}
+
diff --git a/src/dlite-json.h b/src/dlite-json.h
index 6467ba0..3291d46 100644
--- a/src/dlite-json.h
+++ b/src/dlite-json.h
@@ -302,7 +302,7 @@ DLiteInstance *dlite_jstore_get(JStore *js, const char *id);
 /**
   Initiate iterator `init` from json store `js`.
   If `metaid` is provided, the iterator will only iterate over instances
-  of this metadata.
+  of this metadata.  It may be a glob pattern matching the metadata URI.
 
   Returns a new iterator or NULL on error.
  */
@@ -321,6 +321,12 @@ int dlite_jstore_iter_free(DLiteJStoreIter *iter);
  */
 const char *dlite_jstore_iter_next(DLiteJStoreIter *iter);
 
+/**
+  Returns non-zero if dlite_jstore_iter_next() has returned NULL because
+  of an error.  No more instances are returned after an error.
+ */
+int dlite_jstore_iter_status(const DLiteJStoreIter *iter);
+
 
 
 
diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index d44a950..602a115 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -426,7 +426,8 @@ void *json_iter_create(const DLiteStorage *s, const char *metaid)
 int json_iter_next(void *iter, char *buf)
 {
   const char *id;
-  if (!(id = dlite_jstore_iter_next(iter))) return 1;
+  if (!(id = dlite_jstore_iter_next(iter)))
+    return dlite_jstore_iter_status(iter) ? -1 : 1;
   if (dlite_get_uuid(buf, id) < 0) return -1;
   return 0;
 }
-- 
2.43.0


From 043d5e3f2a88cafa1d668e40fca92d3317d426fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:38 +0000
Subject: [PATCH 058/100] fix: dlite_storage_uuids() honours the pattern for
 all drivers and never returns an incomplete list

---
 src/dlite-storage.c     | 63 ++++++++++++++++++++++++++++++++---------
 storages/hdf5/dh5lite.c | 10 +++++--
 2 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index 97dc3e2..e83848d 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -6,6 +6,7 @@
 #include "utils/compat.h"
 #include "utils/err.h"
 #include "utils/fileutils.h"
+#include "utils/globmatch.h"
 
 #include "config-paths.h"
 
@@ -288,6 +289,24 @@ char *dlite_storage_help(DLiteStorage *s)
 }
 
 
+/*
+  Returns 1 if the metadata URI of instance `id` in storage `s` matches
+  the glob pattern `pattern`, zero if it doesn't and -1 on error.
+ */
+static int match_meta_uri(const DLiteStorage *s, const char *id,
+                          const char *pattern)
+{
+  int stat = -1;
+  char *uri = NULL;
+  DLiteDataModel *d;
+  if (!(d = dlite_datamodel(s, id))) return -1;
+  if ((uri = dlite_datamodel_get_meta_uri(d)))
+    stat = (globmatch(pattern, uri) == 0);
+  free(uri);
+  if (dlite_datamodel_free(d)) stat = -1;
+  return stat;
+}
+
 /*
   Returns the UUIDs off all instances in storage `s` whos metadata URI
   matches the glob pattern `pattern`.  If `pattern` is NULL, it matches
@@ -306,32 +325,48 @@ char **dlite_storage_uuids(const DLiteStorage *s, const char *pattern)
   if (s->api->iterCreate && s->api->iterNext && s->api->iterFree) {
     char buf[DLITE_UUID_LENGTH+1];
     void *ptr, *iter = s->api->iterCreate(s, pattern);
-    int n=0, len=0;
+    int stat, n=0, len=0;
 
     if (!iter) return NULL;
-    while (s->api->iterNext(iter, buf) == 0) {
-      if (n >= len) {
+    while ((stat = s->api->iterNext(iter, buf)) == 0) {
+      if (n+1 >= len) {
         len += 32;
         if (!(ptr = realloc(p, len*sizeof(char *)))) {
-          free(p);
-          return err(dliteMemoryError, "allocation failure"), NULL;
+          stat = err(dliteMemoryError, "allocation failure");
+          break;
         }
         p = ptr;
       }
-      p[n++] = strdup(buf);
+      if (!(p[n] = strdup(buf))) {
+        stat = err(dliteMemoryError, "allocation failure");
+        break;
+      }
+      p[++n] = NULL;
     }
     s->api->iterFree(iter);
-    if (p) {
-      if (!(ptr = realloc(p, (n+1)*sizeof(char *)))) {
-        free(p);
-        return err(dliteMemoryError, "allocation failure"), NULL;
+    if (stat < 0) {  // never return an incomplete list
+      dlite_storage_uuids_free(p);
+      p = NULL;
+    }
+  } else if (s->api->getUUIDs) {
+    if ((p = s->api->getUUIDs(s)) && pattern) {
+      int i, n=0, stat=0;
+      for (i=0; p[i]; i++) {  // keep only instances with matching metadata
+        if (stat == 0) stat = match_meta_uri(s, p[i], pattern);
+        if (stat > 0) {
+          p[n++] = p[i];
+          stat = 0;
+        } else {
+          free(p[i]);
+        }
       }
-      p = ptr;
       p[n] = NULL;
+      if (stat < 0) {
+        dlite_storage_uuids_free(p);
+        p = NULL;
+      }
     }
-  } else if (s->api->getUUIDs)
-    p = s->api->getUUIDs(s);
-  else
+  } else
     errx(1, "driver '%s' does not support getUUIDs()", s->api->name);
   return p;
 }
diff --git a/storages/hdf5/dh5lite.c b/storages/hdf5/dh5lite.c
index dbca236..6ef8aad 100644
--- a/storages/hdf5/dh5lite.c
+++ b/storages/hdf5/dh5lite.c
@@ -370,7 +370,7 @@ static herr_t find_entries(hid_t loc_id, const char *name,
   UNUSED(info);
 
   if ((stat = H5Oget_info_by_name(loc_id, name, &infobuf, H5P_DEFAULT)) < 0)
-    err(dliteAttributeError, "cannot get info about '%s'", name);
+    return err(dliteAttributeError, "cannot get info about '%s'", name);
   else {
     int n = strlen(name) + 1;
     if (!(e = malloc(sizeof(EntryList)))) return err(dliteMemoryError, NULL);
@@ -700,7 +700,7 @@ int dh5_set_property(DLiteDataModel *d, const char *name, const void *ptr,
   Returns a NULL-terminated array of string pointers to instance UUID's.
   The caller is responsible to free the returned array.
 
-  Returns NULL (or a partly  on error.
+  Returns NULL on error.
 */
 char **dh5_get_uuids(const DLiteStorage *s)
 {
@@ -724,9 +724,13 @@ char **dh5_get_uuids(const DLiteStorage *s)
     memcpy(names[i], e->name, len);
   }
 
+  entrylist_free(entries);
+  return names;
+
  fail:
+  if (names) dlite_storage_uuids_free(names);
   if (entries) entrylist_free(entries);
-  return names;
+  return NULL;
 }
 
 
-- 
2.43.0


From fb3993a7a3f3816807c84e4660a1b6bbb78bf180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 059/100] fix: jstore frees stolen values on failure, keeps
 quoted strings intact and accepts unterminated buffers

---
 src/utils/jstore.c | 36 ++++++++++++++++++++++++++----------
 src/utils/jstore.h |  3 ++-
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/utils/jstore.c b/src/utils/jstore.c
index cf1f369..9bfaf73 100644
--- a/src/utils/jstore.c
+++ b/src/utils/jstore.c
@@ -161,15 +161,20 @@ int jstore_addn(JStore *js, const char *key, size_t klen,
 }
 
 /* Add JSON value to store with given key.
-   The store "steels" the ownership of the memory pointed to by `value`.
+   The store "steels" the ownership of the memory pointed to by `value`
+   (also on error).
    If key already exists, it is replaced.
    Returns non-zero on error. */
 int jstore_addstolen(JStore *js, const char *key, const char *value)
 {
   char **v;
-  if ((v = map_get(&js->store, key))) free(*v);  // free existing value
-  if (map_set(&js->store, key, (char *)value))
+  if ((v = map_get(&js->store, key))) {
+    free(*v);  // free existing value
+    *v = (char *)value;
+  } else if (map_set(&js->store, key, (char *)value)) {
+    free((char *)value);
     return err(1, "error adding key \"%s\" to JSON store", key);
+  }
   return 0;
 }
 
@@ -216,10 +221,16 @@ int jstore_update_from_jsmn(JStore *js, const char *src, jsmntok_t *tok)
   jsmntok_t *tk = tok+1;
   if (tok->type != JSMN_OBJECT) return err(1, "jsmn token must be an object");
   for (i=0; i < tok->size; i++) {
+    int stat;
     jsmntok_t *tv = tk+1;
-    if (jstore_addn(js,
-                    src + tk->start, tk->end - tk->start,
-                    src + tv->start, tv->end - tv->start)) return 1;
+    char *key = strndup(src + tk->start, tk->end - tk->start);
+    /* The token of a string does not include the quotes */
+    int quote = (tv->type == JSMN_STRING) ? 1 : 0;
+    if (!key) return err(1, "allocation failure");
+    stat = jstore_addn(js, key, 0, src + tv->start - quote,
+                       tv->end - tv->start + 2*quote);
+    free(key);
+    if (stat) return stat;
     tk += jsmn_count(tv) + 2;
   }
   return 0;
@@ -236,8 +247,9 @@ int jstore_update_from_string(JStore *js, const char *buf, int len)
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, buf, len, &tokens, &ntokens);
   if (r < 0) {
-    return err(1, "error parsing JSON buffer \"%.70s\": %s",
-               buf, jsmn_strerror(r));
+    free(tokens);
+    return err(1, "error parsing JSON buffer \"%.*s\": %s",
+               (len < 70) ? len : 70, buf, jsmn_strerror(r));
   }
   stat = jstore_update_from_jsmn(js, buf, tokens);
   free(tokens);
@@ -296,6 +308,7 @@ char *jstore_to_string(JStore *js)
   n += m;
   return buf;
  fail:
+  free(buf);
   return err(1, "error creating json string"), NULL;
 }
 
@@ -368,8 +381,6 @@ int jstore_set_labeln(JStore *js, const char *key, const char *label, int len)
 {
   char **p, *s;
   int stat;
-  if ((p = map_get(&js->labels, key))) free(*p);
-
   if (len > 0)
     s = strndup(label, len);
   else if (len == 0)
@@ -378,6 +389,11 @@ int jstore_set_labeln(JStore *js, const char *key, const char *label, int len)
     s = strdup(label);
   if (!s) return err(1, "allocation failure");
 
+  if ((p = map_get(&js->labels, key))) {
+    free(*p);
+    *p = s;
+    return 0;
+  }
   if ((stat = map_set(&js->labels, key, s))) {
     errx(2, "error associating label '%s' to key '%s'", s, key);
     free(s);
diff --git a/src/utils/jstore.h b/src/utils/jstore.h
index bbae6bd..4482491 100644
--- a/src/utils/jstore.h
+++ b/src/utils/jstore.h
@@ -83,7 +83,8 @@ int jstore_addn(JStore *js, const char *key, size_t klen,
                 const char *value, size_t vlen);
 
 /** Add JSON value to store with given key.
-    The store "steels" the ownership of the memory pointed to by `value`.
+    The store "steels" the ownership of the memory pointed to by `value`
+    (also on error).
     If key already exists, it is replaced.
     Returns non-zero on error. */
 int jstore_addstolen(JStore *js, const char *key, const char *value);
-- 
2.43.0


From b3272c9f245dbd0343a96377a0c6a96dd10f4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 060/100] fix: JSON storage reports an invalid memory buffer, a
 failing store and a missing id

---
 storages/json/dlite-json-storage.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/storages/json/dlite-json-storage.c b/storages/json/dlite-json-storage.c
index 602a115..7825c57 100644
--- a/storages/json/dlite-json-storage.c
+++ b/storages/json/dlite-json-storage.c
@@ -39,7 +39,9 @@ typedef struct {
 static int default_mode(const char *uri, const unsigned char *buf, size_t size)
 {
   int mode, stat;
-  JStore *js = jstore_open();
+  JStore *js;
+
+  if (!(js = jstore_open())) return -1;
 
   ErrTry:
     if (uri)
@@ -51,8 +53,9 @@ static int default_mode(const char *uri, const unsigned char *buf, size_t size)
   ErrEnd;
 
   if (stat)
-    /* Never overwrite an existing file just because we failed to read it */
-    mode = (uri && fu_exists(uri) == 0) ? 'a' : 'w';
+    /* Never overwrite an existing file just because we failed to read it.
+       An invalid buffer will be reported when it is loaded. */
+    mode = (uri && fu_exists(uri) != 0) ? 'w' : 'a';
   else
     mode = (jstore_get(js, "properties")) ? 'r' : 'a';
   jstore_close(js);
@@ -125,8 +128,7 @@ DLiteStorage *json_loader(const DLiteStoragePlugin *api, const char *uri,
    FAILCODE(dliteMemoryError, "allocation failure");
   s->api = api;
 
-  if (!mode)
-    mode = default_mode(uri, buf, size);
+  if (!mode && (mode = default_mode(uri, buf, size)) < 0) goto fail;
   s->flags |= dliteGeneric;
   switch (mode) {
   case 'r':
@@ -274,7 +276,7 @@ DLiteInstance *json_load(const DLiteStorage *s, const char *id)
     buf = jstore_get(js->jstore, uuid);
   }
   if (!buf && !(buf = jstore_get(js->jstore, id)))
-      goto fail;
+    FAILCODE1(dliteStorageLoadError, "no such instance in storage: %s", id);
   if (dlite_isuuid(id)) {
     /* the provided id is an uuid - check if a human readable id has been
        assoicated with `id` as a label */
-- 
2.43.0


From 6a3046316b38206fb35d46440fba78181f8881b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 061/100] fix: report allocation failures when scanning JSON
 instead of losing the URI or an instance

---
 src/dlite-json.c | 83 ++++++++++++++++++++++++++----------------------
 1 file changed, 45 insertions(+), 38 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 8ed80ad..6c48e45 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -523,25 +523,28 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
  * Scanning
  * ================================================================ */
 
-/* Returns a malloc buffer with the URI of `obj` or NULL on error. */
-static char *get_uri(const char *src, const jsmntok_t *obj)
+/* Assigns `*uri` to a malloc'ed buffer with the URI of `obj`.
+   Returns 0 on success, 1 if `obj` has no URI and -1 on error.  In the
+   last two cases is `*uri` assigned to NULL. */
+static int get_uri(char **uri, const char *src, const jsmntok_t *obj)
 {
   const jsmntok_t *t, *t1, *t2, *t3;
-  if ((t = jsmn_item(src, obj, "uri")))
-    return strndup(src + t->start, t->end - t->start);
-  if ((t = jsmn_item(src, obj, "identity")))
-    return strndup(src + t->start, t->end - t->start);
-  if ((t1 = jsmn_item(src, obj, "name")) &&
-      (t2 = jsmn_item(src, obj, "version")) &&
-      (t3 = jsmn_item(src, obj, "namespace"))) {
-    char *buf=NULL;
-    asprintf(&buf, "%.*s/%.*s/%.*s",
-             t3->end - t3->start, src + t3->start,
-             t2->end - t2->start, src + t2->start,
-             t1->end - t1->start, src + t1->start);
-    return buf;
+  *uri = NULL;
+  if ((t = jsmn_item(src, obj, "uri")) ||
+      (t = jsmn_item(src, obj, "identity"))) {
+    *uri = strndup(src + t->start, t->end - t->start);
+  } else if ((t1 = jsmn_item(src, obj, "name")) &&
+             (t2 = jsmn_item(src, obj, "version")) &&
+             (t3 = jsmn_item(src, obj, "namespace"))) {
+    if (asprintf(uri, "%.*s/%.*s/%.*s",
+                 t3->end - t3->start, src + t3->start,
+                 t2->end - t2->start, src + t2->start,
+                 t1->end - t1->start, src + t1->start) < 0) *uri = NULL;
+  } else {
+    return 1;
   }
-  return NULL;
+  if (!*uri) return err(dliteMemoryError, "allocation failure"), -1;
+  return 0;
 }
 
 /* Returns a malloc buffer with the URI of the metadata of `obj` or
@@ -550,20 +553,20 @@ static char *get_meta_uri(const char *src, const jsmntok_t *obj)
 {
   const jsmntok_t *item;
   char *buf=NULL;
-  size_t size=0;
   const char *s = src + obj->start;
-  int len = obj->end - obj->start;
-  if (!(item = jsmn_item(src, (jsmntok_t *)obj, "meta")))
-    return strdup(DLITE_ENTITY_SCHEMA);  // default is entity schema
-
-  if (item->type == JSMN_OBJECT) {
-    if (!(buf = get_uri(src, item)))
+  int stat, len = obj->end - obj->start;
+  if (!(item = jsmn_item(src, (jsmntok_t *)obj, "meta"))) {
+    buf = strdup(DLITE_ENTITY_SCHEMA);  // default is entity schema
+  } else if (item->type == JSMN_OBJECT) {
+    if ((stat = get_uri(&buf, src, item)) > 0)
       FAIL2("invalid meta for object %.*s", len, s);
+    if (stat < 0) goto fail;
   } else if (item->type == JSMN_STRING) {
-    strnput(&buf, &size, 0, src + item->start, item->end - item->start);
+    buf = strndup(src + item->start, item->end - item->start);
   } else
     return err(1, "\"meta\" in json repr. of instance should be either an "
                "object or a string: %.*s", len, s), NULL;
+  if (!buf) FAILCODE(dliteMemoryError, "allocation failure");
  fail:
   return buf;
 }
@@ -628,7 +631,8 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
       return dlite_instance_get(id);
 
   /* Get uri and uuid */
-  if ((uri = get_uri(src, obj))) {
+  if ((stat = get_uri(&uri, src, obj)) < 0) goto fail;
+  if (uri) {
     if (dlite_get_uuid(uuid, uri) < 0) goto fail;
   } else if ((stat = get_uuid(uuid, src, obj)) < 0) {
     goto fail;
@@ -741,10 +745,10 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
 
     /* -- assign uri */
     if (!inst->uri) {
-      if (uri)
-        inst->uri = strdup(uri);
-      else if (id && !dlite_isuuid(id))
-        inst->uri = strdup(id);
+      const char *insturi =
+        (uri) ? uri : (id && !dlite_isuuid(id)) ? id : NULL;
+      if (insturi && !(inst->uri = strdup(insturi)))
+        FAILCODE(dliteMemoryError, "allocation failure");
     }
 
     /* -- read properties */
@@ -855,7 +859,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
     if (t2) FAIL("`id` (or `metaid`) is required when scanning json input "
                  "with multiple instances");
     jsmntok_t *val = (jsmntok_t *)t1 + 1;
-    buf = strndup(src + t1->start, t1->end - t1->start);
+    if (!(buf = strndup(src + t1->start, t1->end - t1->start)))
+      FAILCODE(dliteMemoryError, "allocation failure");
     inst = parse_instance(src, val, buf);
   } else {
     int n=1;
@@ -1244,22 +1249,24 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
   DLiteJsonFormat retval=-1, format;
   DLiteJsonFlag flags=0;
   char *dots = (len > 30) ? "..." : "";
+  int n = (len > 30) ? 30 : len;
 
   jsmn_init(&parser);
   if ((r = jsmn_parse_alloc(&parser, src, len, &tokens, &ntokens)) < 0)
-    FAIL3("error parsing json string: \"%.30s%s\": %s",
-          src, dots, jsmn_strerror(r));
+    FAIL4("error parsing json string: \"%.*s%s\": %s",
+          n, src, dots, jsmn_strerror(r));
   if (tokens->type != JSMN_OBJECT)
-    FAIL2("root of json data must be an object: \"%.30s%s\"", src, dots);
+    FAIL3("root of json data must be an object: \"%.*s%s\"", n, src, dots);
 
   if ((format = dlite_json_check(src, tokens, NULL, &flags)) < 0) goto fail;
 
   if (flags & dliteJsonSingle) {
     uuid[0] = '\0';
     if (get_uuid(uuid, src, tokens) < 0) goto fail;
-    if (!(uri = get_uri(src, tokens)) && !uuid[0])
-      FAILCODE2(dliteParseError,
-                "missing UUID and URI in json data: \"%.30s%s\"", src, dots);
+    if (get_uri(&uri, src, tokens) < 0) goto fail;
+    if (!uri && !uuid[0])
+      FAILCODE3(dliteParseError,
+                "missing UUID and URI in json data: \"%.*s%s\"", n, src, dots);
     if (uri) {
       char uuid2[DLITE_UUID_LENGTH+1];
       if (dlite_get_uuid(uuid2, uri) < 0) goto fail;
@@ -1269,7 +1276,7 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
                   uri, uuid);
       if (!uuid[0]) strncpy(uuid, uuid2, sizeof(uuid));
     }
-    jstore_addn(js, uuid, DLITE_UUID_LENGTH, src, len);
+    if (jstore_addn(js, uuid, DLITE_UUID_LENGTH, src, len)) goto fail;
   } else {
     jsmntok_t *t = tokens + 1;
     int i;
@@ -1283,7 +1290,7 @@ DLiteJsonFormat dlite_jstore_loads(JStore *js, const char *src, int len)
       if (dlite_get_uuidn(uuid, id, len) < 0)
         goto fail;
       else if (len != DLITE_UUID_LENGTH || !dlite_isuuid(id))
-        jstore_set_labeln(js, uuid, id, len);
+        if (jstore_set_labeln(js, uuid, id, len)) goto fail;
 
       if (jstore_addn(js, uuid, DLITE_UUID_LENGTH,
                       src + v->start, v->end - v->start)) goto fail;
-- 
2.43.0


From 1d0ec3c50bd6e5b7cfdd6357113b9f0582215106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 062/100] fix: plugin loading neither closes libraries that are
 in use nor loops or leaks on failure

---
 src/utils/plugin.c | 107 +++++++++++++++++++++++++--------------------
 1 file changed, 60 insertions(+), 47 deletions(-)

diff --git a/src/utils/plugin.c b/src/utils/plugin.c
index f5a6ddd..50c67a0 100644
--- a/src/utils/plugin.c
+++ b/src/utils/plugin.c
@@ -108,7 +108,7 @@ void plugin_info_free(PluginInfo *info)
   while ((path = map_next(&info->plugins, &iter))) {
     Plugin **p = map_get(&info->plugins, path);
     assert(p);
-    plugin_decref(*p);
+    while (plugin_decref(*p) > 0);
   }
   map_deinit(&info->plugins);
   map_deinit(&info->pluginpaths);
@@ -148,24 +148,28 @@ static int register_plugin(PluginInfo *info, const PluginAPI *api,
       plugin->handle = handle;
 
       if (map_set(&info->plugins, plugin->path, plugin))
-        fatal(1, "failed to register plugin: %s", path);
+        FAIL1("failed to register plugin: %s", path);
     }
     if (map_set(&info->pluginpaths, name, plugin->path))
-      fatal(1, "failed to map plugin name '%s' to path: %s", name, path);
+      FAIL2("failed to map plugin name '%s' to path: %s", name, path);
   }
 
   if (map_set(&info->apis, name, (PluginAPI *)api))
-    fatal(1, "failed to register api: %s", name);
+    FAIL1("failed to register api: %s", name);
 
   return 0;
  fail:
   if (plugin) {
     map_remove(&info->pluginpaths, name);
-    if (plugin->path) {
-      map_remove(&info->plugins, plugin->path);
-      free(plugin->path);
+    if (plugin->count > 1) {  /* already registered */
+      plugin->count--;
+    } else {
+      if (plugin->path) {
+        map_remove(&info->plugins, plugin->path);
+        free(plugin->path);
+      }
+      free(plugin);
     }
-    free(plugin);
   }
   return 1;
 }
@@ -194,16 +198,16 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
   void *sym=NULL;
   PluginFunc func;
   PluginAPI *api=NULL, **apiptr;
-  const void *loaded_api=NULL, *registered_api=NULL, *retval=NULL;
-
-  if (!(iter = fu_startmatch(pattern, &info->paths))) goto fail;
+  const void *loaded_api=NULL, *retval=NULL;
 
   /* Check if plugin is already loaded */
   if (name && (apiptr = map_get(&info->apis, name)))
     return *apiptr;
 
+  if (!(iter = fu_startmatch(pattern, &info->paths))) goto fail;
+
   while ((filepath = fu_nextmatch(iter))) {
-    int iter1=0, iter2=0;
+    int iter1=0, iter2=0, nregistered=0;
     err_clear();
 
     /* load plugin */
@@ -215,6 +219,7 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
     if (!(sym = dsl_sym(handle, info->symbol))) {
       warn("dsl_sym: %s", dsl_error());
       (void)dsl_close(handle);
+      handle = NULL;
       continue;
     }
     err_clear();
@@ -224,21 +229,24 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
     *(void **)(&func) = sym;
 
     while ((api = (PluginAPI *)func(info->state, &iter1))) {
-      registered_api = NULL;
-
-      if (!map_get(&info->apis, api->name)) {  /* no plugin with this name */
-        loaded_api = api;
-        if (!name) {
-          if (!register_plugin(info, api, filepath, handle))
-            registered_api = api;
-        } else if (strcmp(api->name, name) == 0) {
-          if (register_plugin(info, api, filepath, handle)) goto fail;
-          registered_api = api;
-          fu_endmatch(iter);
-          return api;
+      int registered = 0;
+
+      if (!map_get(&info->apis, api->name) &&  /* no plugin with this name */
+          (!name || strcmp(api->name, name) == 0)) {
+        if (!register_plugin(info, api, filepath, handle)) {
+          registered = 1;
+          nregistered++;
+          loaded_api = api;
+          if (name) {
+            fu_endmatch(iter);
+            return api;
+          }
+        } else if (name) {
+          if (api->freeapi) api->freeapi(api);
+          goto fail;
         }
       }
-      if (!registered_api && api && api->freeapi)
+      if (!registered && api->freeapi)
         api->freeapi(api);
 
       if (iter1 == iter2) break;
@@ -248,11 +256,10 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
       warn("failure calling \"%s\" in plugin \"%s\": %s",
            info->symbol, filepath, dsl_error());
 
-    if (!registered_api && handle) {
-      if (handle && dsl_close(handle))
-        err(1, "error closing \"%s\": %s", filepath, dsl_error());
-      handle = NULL;
-    }
+    /* Keep the plugin open if any of its APIs was registered */
+    if (!nregistered && dsl_close(handle))
+      err(1, "error closing \"%s\": %s", filepath, dsl_error());
+    handle = NULL;
   }
   if (name) {
     if (errcode) errx(errcode, "no such plugin: \"%s\"", name);
@@ -261,7 +268,7 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
     retval = loaded_api;
   }
  fail:
-  if (!retval && handle)
+  if (handle)
     (void)dsl_close(handle);
   if (iter) fu_endmatch(iter);
 
@@ -360,27 +367,25 @@ void plugin_load_all(PluginInfo *info)
 int plugin_unload(PluginInfo *info, const char *name)
 {
   char **ppath;
-  char *pname = strdup(name);
+  char *pname = strdup(name);  /* `name` may be owned by the api */
   PluginAPI **apip, *api;
+  Plugin **p, *plugin=NULL;
   int retval = 1;
+  if (!pname) FAIL("allocation failure");
   if (!(apip = map_get(&info->apis, pname)))
     FAIL1("cannot unload api: %s", pname);
   api = *apip;
+  if ((ppath = map_get(&info->pluginpaths, pname)) &&
+      (p = map_get(&info->plugins, *ppath)))
+    plugin = *p;
 
-  if (api->freeapi) api->freeapi(api);
-  if ((ppath = map_get(&info->pluginpaths, pname))) {
-    Plugin **p;
-    assert(*ppath);
-    if ((p = map_get(&info->plugins, *ppath))) {
-      char *path;
-      assert(*p);
-      if (!(path = strdup(*ppath))) FAIL("allocation failure");
-      if (plugin_decref(*p) <= 0) map_remove(&info->plugins, path);
-      free(path);
-    }
-  }
   map_remove(&info->pluginpaths, pname);
   map_remove(&info->apis, pname);
+  if (api->freeapi) api->freeapi(api);
+  if (plugin) {
+    if (plugin->count <= 1) map_remove(&info->plugins, plugin->path);
+    plugin_decref(plugin);
+  }
   retval = 0;
  fail:
   free(pname);
@@ -397,9 +402,12 @@ char **plugin_names(const PluginInfo *info)
   char **names=NULL;
   PluginIter iter;
   const PluginAPI *api;
+  if (!(names = malloc(sizeof(char *))))
+    return err(1, "allocation failure"), NULL;
+  size = 1;
   plugin_api_iter_init(&iter, info);
   while ((api = plugin_api_iter_next(&iter))) {
-    if (n >= size) {
+    if (n + 1 >= size) {
       void *ptr;
       size += 16;
       if (!(ptr = realloc(names, size * sizeof(char *)))) {
@@ -408,9 +416,14 @@ char **plugin_names(const PluginInfo *info)
       }
       names = ptr;
     }
-    names[n++] = strdup(api->name);
+    if (!(names[n] = strdup(api->name))) {
+      while (--n >= 0) free(names[n]);
+      free(names);
+      return err(1, "allocation failure"), NULL;
+    }
+    n++;
   }
-  if (names) names[n] = NULL;
+  names[n] = NULL;
   return names;
 }
 
-- 
2.43.0


From 83fab2d940e52f263fecfef9f468c137a1a97da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:47 +0000
Subject: [PATCH 063/100] fix: mapping finds the cheapest path, never shares
 subtrees or references and reports errors instead of asserting

---
 bindings/python/dlite-mapping.i    |   6 -
 src/dlite-entity.c                 |  10 +-
 src/dlite-mapping.c                | 377 ++++++++++++-----------------
 src/pyembed/dlite-python-mapping.c |   1 -
 4 files changed, 162 insertions(+), 232 deletions(-)

diff --git a/bindings/python/dlite-mapping.i b/bindings/python/dlite-mapping.i
index b3dd2ad..bba5638 100644
--- a/bindings/python/dlite-mapping.i
+++ b/bindings/python/dlite-mapping.i
@@ -15,12 +15,6 @@ struct _DLiteInstance *swig_mapping(const char *output_uri,
                                     int ninstances)
 {
  DLiteInstance *inst=NULL;
- int i;
-
- /* Increate refcount to instances.
-    They are decreased again by mapper() */
- for (i=0; i<ninstances; i++) dlite_instance_incref(instances[i]);
-
  if (!(inst = dlite_mapping(output_uri, (const DLiteInstance **)instances,
                             ninstances)))
       return dlite_err(1, "mapping failed '%s'", output_uri), NULL;
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 5566f8e..7620eae 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1217,10 +1217,14 @@ DLiteInstance *dlite_instance_memload(const char *driver,
 
   if (!(inst = api->memLoadInstance(api, buf, size, id, options)))
     return NULL;
-  if (metaid)
-    return dlite_mapping(metaid, (const DLiteInstance **)&inst, 1);
-  else
+  if (metaid) {
+    DLiteInstance *inst2 = dlite_mapping(metaid,
+                                         (const DLiteInstance **)&inst, 1);
+    dlite_instance_decref(inst);
+    return inst2;
+  } else {
     return inst;
+  }
 }
 
 /*
diff --git a/src/dlite-mapping.c b/src/dlite-mapping.c
index 5b3c0ca..0a0234f 100644
--- a/src/dlite-mapping.c
+++ b/src/dlite-mapping.c
@@ -1,6 +1,7 @@
 #include "config.h"
 
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 
 #include "utils/err.h"
@@ -16,138 +17,106 @@
 
 
 /*
-  Custom map types.  Are also used as sets (unused map value).
+  Custom map type.  Is also used as a set (unused map value).
  */
 typedef map_t(DLiteInstance *) Instances;
-typedef map_t(DLiteMapping *) Mappings;
 
 
 /*
-  Recursive help function that removes all mappings found in `m` and its
-  submappings from `created`.
+  The cheapest way found so far to create an instance of a given metadata.
  */
-void mapping_remove_rec(DLiteMapping *m, Mappings *created)
-{
-  int i;
-  if (!m) return;
-  map_remove(created, m->output_uri);
-  for (i=0; i < m->ninput; i++)
-    if (m->input_maps[i])
-      mapping_remove_rec((DLiteMapping *)m->input_maps[i], created);
-}
+typedef struct {
+  const DLiteMappingPlugin *api;  /* plugin with the given output URI */
+  int cost;                       /* total cost, including sub-mappings */
+} Best;
+
+typedef map_t(Best) BestMappings;
+
 
 /*
-  Recursive help function returning a mapping.
+  Help function that finds the cheapest way to create instances of all
+  metadata that can be obtained from `inputs` and assigns it to `best`.
 
-  `inputs` set of input URIs (unused map value)
-  `visited` set of so far visited output URIs (unused map value)
-  `created` maps all created output URIs to corresponding mapping
-  `dead_ends` set of URIs that we cannot create a mapping to (unused map value)
+  Returns non-zero on error.
  */
-DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
-                                 Mappings *visited, Mappings *created,
-                                 Mappings *dead_ends)
+static int mapping_find_best(Instances *inputs, BestMappings *best)
 {
-  int i, lowest_cost=-1;
-  DLiteMapping *m=NULL, *retval=NULL;
-  const DLiteMappingPlugin *api, *cheapest=NULL;
-  DLiteMappingPluginIter iter;
-
-  dlite_mapping_plugin_init_iter(&iter);
+  int i, changed=1;
+
+  /* Since the costs are not negative and an entry only is replaced by a
+     cheaper one, this will terminate and following `best` can never lead
+     back to the same metadata, even if the mapping plugins are cyclic. */
+  while (changed) {
+    const DLiteMappingPlugin *api;
+    DLiteMappingPluginIter iter;
+    changed = 0;
+    if (dlite_mapping_plugin_init_iter(&iter)) return 1;
+    while ((api = dlite_mapping_plugin_next(&iter))) {
+      Best new, *old;
+      long long cost = api->cost;
+
+      if (api->cost < 0 || map_get(inputs, api->output_uri)) continue;
+      for (i=0; i < api->ninput; i++) {
+        Best *b;
+        if (map_get(inputs, api->input_uris[i])) continue;
+        if (!(b = map_get(best, api->input_uris[i]))) break;
+        cost += b->cost;
+      }
+      if (i < api->ninput || cost > INT_MAX) continue;
 
-  /* Ensure that no input URI equals output URI */
-  assert(!map_get(inputs, output_uri));
+      old = map_get(best, api->output_uri);
+      if (old && old->cost <= cost) continue;
 
-  /* Ensure that this not an already known dead end */
-  assert(!map_get(dead_ends, output_uri));
+      new.api = api;
+      new.cost = (int)cost;
+      if (map_set(best, api->output_uri, new))
+        return err(dliteMemoryError, "allocation failure");
+      changed = 1;
+    }
+  }
+  return 0;
+}
 
-  /* Add output_uri to visited */
-  assert(!map_get(visited, output_uri));
-  map_set(visited, output_uri, NULL);
 
-  /* Find cheapest mapping to output_api */
-  while ((api = dlite_mapping_plugin_next(&iter))) {
-    int ignore = 0;
-    int cost = api->cost;
-    if (strcmp(output_uri, api->output_uri) != 0) continue;
+/*
+  Recursive help function that creates a nested mapping to `output_uri`
+  from `best`.  The returned mapping owns all its sub-mappings.
 
-    /* avoid infinite cyclic loops and known dead ends */
-    for (i=0; i < api->ninput; i++) {
-      if (map_get(visited, api->input_uris[i]) ||
-          map_get(dead_ends, api->input_uris[i])) {
-        ignore = 1;
-        break;
-      }
-    }
-    if (ignore) continue;
-
-    /* avoid mappings that depends on input that cannot be realised and
-       calculate cost */
-    for (i=0; i < api->ninput; i++) {
-      if (!map_get(inputs, api->input_uris[i])) {
-        DLiteMapping *mapping=NULL, **mappingp=NULL;
-        if (!(mappingp = map_get(created, api->input_uris[i])) &&
-            !(mapping = mapping_create_rec(api->input_uris[i], inputs,
-                                           visited, created, dead_ends))) {
-          ignore = 1;
-          break;
-        } else {
-          if (!mapping) mapping = *mappingp;
-          assert(mapping->cost >= 0);
-          cost += mapping->cost;
-        }
-      }
-    }
-    if (ignore) continue;
-
-    /*
-      FIXME: avoid memory leak
-      Implement dlite_mapping_plugin_free() and call it here.
-
-      Even better, implement caching in dlite_mapping_plugin_next()
-      such that it returns borrowed references to the api. Add a function
-      to clear the cache.
-    */
-    if (!cheapest || cost < lowest_cost) {
-      //dlite_mapping_plugin_free(cheapest);
-      cheapest = api;
-      lowest_cost = cost;
-    } else {
-      //dlite_mapping_plugin_free(api);
-    }
-  }
-  if (!(api = cheapest)) goto fail;
+  Returns NULL on error.
+ */
+static DLiteMapping *mapping_create_rec(const char *output_uri,
+                                        Instances *inputs,
+                                        BestMappings *best)
+{
+  int i;
+  DLiteMapping *m=NULL;
+  const DLiteMappingPlugin *api;
+  Best *b = map_get(best, output_uri);
+  assert(b);
+  api = b->api;
 
-  /* create mapping */
-  assert(strcmp(output_uri, api->output_uri) == 0);
   if (!(m = calloc(1, sizeof(DLiteMapping))))
-   FAILCODE(dliteMemoryError, "allocation failure");
+    FAILCODE(dliteMemoryError, "allocation failure");
   m->name = api->name;
   m->output_uri = api->output_uri;
-  m->ninput = api->ninput;
-  if (!(m->input_maps = calloc(m->ninput, sizeof(DLiteMapping *))))
+  m->api = (DLiteMappingPlugin *)api;
+  m->cost = b->cost;
+  if (!(m->input_maps = calloc(api->ninput + 1, sizeof(DLiteMapping *))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  if (!(m->input_uris = calloc(m->ninput, sizeof(char *))))
+  if (!(m->input_uris = calloc(api->ninput + 1, sizeof(char *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < api->ninput; i++) {
-    if (!map_get(inputs, api->input_uris[i])) {
-      DLiteMapping **p = map_get(created, api->input_uris[i]);
-      assert(p);
-      m->input_maps[i] = *p;
-      assert(m->input_maps[i]);
-    } else
+    if (map_get(inputs, api->input_uris[i]))
       m->input_uris[i] = api->input_uris[i];
+    else if (!(m->input_maps[i] =
+               mapping_create_rec(api->input_uris[i], inputs, best)))
+      goto fail;
+    m->ninput++;
   }
-  m->api = (DLiteMappingPlugin *)api;
-  m->cost = lowest_cost;
-
-  map_set(created, output_uri, m);
-
-  retval = m;
+  return m;
  fail:
-  map_remove(visited, output_uri);
-  if (!retval) map_set(dead_ends, output_uri, NULL);
-  return retval;
+  if (m) dlite_mapping_free(m);
+  return NULL;
 }
 
 
@@ -155,16 +124,13 @@ DLiteMapping *mapping_create_rec(const char *output_uri, Instances *inputs,
   Returns a new nested mapping structure describing how the set of
   input URIs in `inputs` can be mapped to `output_uri`.
  */
-DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
+static DLiteMapping *mapping_create_base(const char *output_uri,
+                                         Instances *inputs)
 {
-  Mappings visited, created, dead_ends;
+  BestMappings best;
   DLiteMapping *m=NULL, *retval=NULL;
-  map_iter_t iter;
-  const char *key;
 
-  map_init(&visited);
-  map_init(&created);
-  map_init(&dead_ends);
+  map_init(&best);
 
   if ((map_get(inputs, output_uri))) {
     /* The trivial case - one of the input URIs equals output URI. */
@@ -172,34 +138,25 @@ DLiteMapping *mapping_create_base(const char *output_uri, Instances *inputs)
       FAILCODE(dliteMemoryError, "allocation failure");
     m->name = NULL;
     m->output_uri = output_uri;
-    m->ninput = 1;
     if (!(m->input_maps = calloc(1, sizeof(DLiteMapping *))))
       FAILCODE(dliteMemoryError, "allocation failure");
     if (!(m->input_uris = calloc(1, sizeof(char *))))
       FAILCODE(dliteMemoryError, "allocation failure");
+    m->ninput = 1;
     m->input_uris[0] = output_uri;
     m->api = NULL;
     m->cost = 0;
 
   } else {
-    m = mapping_create_rec(output_uri, inputs, &visited, &created, &dead_ends);
+    if (mapping_find_best(inputs, &best)) goto fail;
+    if (!map_get(&best, output_uri))
+      FAILCODE1(dliteMappingError, "no mapping to: %s", output_uri);
+    if (!(m = mapping_create_rec(output_uri, inputs, &best))) goto fail;
   }
 
   retval = m;
  fail:
-
-  /* Free all created mappings not in retval */
-  mapping_remove_rec(retval, &created);
-  iter = map_iter(&created);
-  while ((key = map_next(&created, &iter))) {
-    DLiteMapping **mp = map_get(&created, key);
-    assert(mp && *mp);
-    free(*mp);
-  }
-
-  map_deinit(&visited);
-  map_deinit(&created);
-  map_deinit(&dead_ends);
+  map_deinit(&best);
   if (!retval && m) dlite_mapping_free(m);
   return retval;
 }
@@ -225,9 +182,11 @@ DLiteMapping *dlite_mapping_create(const char *output_uri,
   /* Check that all input_uris are unique */
   for (i=0; i<n; i++) {
     if (map_get(&inputs, input_uris[i]))
-      FAIL1("more than one mapping input of the same metadata: %s",
-            input_uris[i]);
-    map_set(&inputs, input_uris[i], NULL);
+      FAILCODE1(dliteMappingError,
+                "more than one mapping input of the same metadata: %s",
+                input_uris[i]);
+    if (map_set(&inputs, input_uris[i], NULL))
+      FAILCODE(dliteMemoryError, "allocation failure");
   }
 
   m = mapping_create_base(output_uri, &inputs);
@@ -255,48 +214,63 @@ void dlite_mapping_free(DLiteMapping *m)
 
 
 /*
-  Recursive help function that performs the actual mapping and returns
-  a new instance (with metadata `m->output_uri`).
+  Recursive help function that performs the actual mapping.
 
   `m`: mapping tree that descripes how the instance can be created.
-  `instances`: maps metadata URI to an instance with this metadata.  The
-       instance should be either an input instance or created by a
-       mapping.
+  `inputs`: maps metadata URI to input instance with this metadata
+       (borrowed references).
+  `created`: maps metadata URI to instance with this metadata created by
+       a mapping.  Owns the instances.
+
+  Returns a borrowed reference to an instance with metadata `m->output_uri`
+  or NULL on error.
  */
-DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *instances)
+static DLiteInstance *mapping_map_rec(const DLiteMapping *m, Instances *inputs,
+                                      Instances *created)
 {
   int i;
   const DLiteInstance **insts=NULL;
-  DLiteInstance *inst=NULL, **instp;
+  DLiteInstance *inst=NULL, *retval=NULL, **instp;
+
+  /* Check if we already have an instance with metadata `m->output_uri` */
+  if ((instp = map_get(inputs, m->output_uri))) return *instp;
+  if ((instp = map_get(created, m->output_uri))) return *instp;
 
-  /* Trivial case - we already have an instance with metadata `m->output_uri` */
-  if ((instp = map_get(instances, m->output_uri)))
-    return *instp;
+  if (!m->api)
+    FAILCODE1(dliteMappingError, "missing mapping input: %s", m->output_uri);
 
   /* Create `insts` array */
-  if (!(insts = calloc(m->ninput, sizeof(DLiteInstance))))
+  if (!(insts = calloc(m->ninput + 1, sizeof(DLiteInstance *))))
     FAILCODE(dliteMemoryError, "allocation failure");
   for (i=0; i < m->ninput; i++) {
     if (m->input_maps[i]) {
-      insts[i] = mapping_map_rec(m->input_maps[i], instances);
+      if (!(insts[i] = mapping_map_rec(m->input_maps[i], inputs, created)))
+        goto fail;
     } else {
-      instp = map_get(instances, m->input_uris[i]);
-      assert(instp);
+      if (!(instp = map_get(inputs, m->input_uris[i])))
+        FAILCODE1(dliteMappingError, "missing mapping input: %s",
+                  m->input_uris[i]);
       insts[i] = *instp;
     }
   }
 
   /* Call the mapper function from plugin */
-  if (!(inst = m->api->mapper(m->api, insts, m->ninput))) goto fail;
-
-  /* Add new instance to `instances` */
-  assert(strcmp(inst->meta->uri, m->output_uri) == 0);
-  dlite_instance_incref(inst);  // TODO: is this correct?
-  map_set(instances, inst->meta->uri, inst);
+  if (!(inst = m->api->mapper(m->api, insts, m->ninput)))
+    FAILCODE2(dliteMappingError, "mapping '%s' failed to create: %s",
+              m->name, m->output_uri);
+  if (strcmp(inst->meta->uri, m->output_uri) != 0)
+    FAILCODE3(dliteMappingError, "mapping '%s' should create: %s, got: %s",
+              m->name, m->output_uri, inst->meta->uri);
+
+  /* Add new instance to `created` */
+  if (map_set(created, m->output_uri, inst))
+    FAILCODE(dliteMemoryError, "allocation failure");
 
+  retval = inst;
  fail:
+  if (!retval && inst) dlite_instance_decref(inst);
   if (insts) free((void *)insts);
-  return inst;
+  return retval;
 }
 
 
@@ -339,55 +313,46 @@ char *dlite_mapping_string(const DLiteMapping *m)
 }
 
 
-/* Assign `inputs` from `instances` and increases refcount of each
-   instance.  Returns non-zero on error. */
-int set_inputs(Instances *inputs, const DLiteInstance **instances, int n)
+/* Assign `inputs` from `instances` (borrowed references).
+   Returns non-zero on error. */
+static int set_inputs(Instances *inputs, const DLiteInstance **instances, int n)
 {
   int i;
   for (i=0; i<n; i++) {
     const char *uri = instances[i]->meta->uri;
-    if (map_get(inputs, uri)) {
-      while (--i >= 0) {
-        map_remove(inputs, instances[i]->meta->uri);
-        dlite_instance_decref((DLiteInstance *)instances[i]);
-      }
-      return err(1, "more than one instance of the same metadata: %s", uri);
-    }
-    dlite_instance_incref((DLiteInstance *)instances[i]);
-    map_set(inputs, uri, (DLiteInstance *)instances[i]);
+    if (map_get(inputs, uri))
+      return err(dliteMappingError,
+                 "more than one instance of the same metadata: %s", uri);
+    if (map_set(inputs, uri, (DLiteInstance *)instances[i]))
+      return err(dliteMemoryError, "allocation failure");
   }
   return 0;
 }
 
-/* Decrease the refcount on each instance in inputs. */
-int decref_inputs(Instances *inputs)
+
+/* Applies the mapping `m` on `inputs` and returns a new reference to the
+   resulting instance or NULL on error. */
+static DLiteInstance *mapping_map_base(const DLiteMapping *m, Instances *inputs)
 {
   const char *uri;
-  map_iter_t iter = map_iter(inputs);
-  while ((uri = map_next(inputs, &iter))) {
-    DLiteInstance **instp = map_get(inputs, uri);
-    if (instp) dlite_instance_decref(*instp);
-  }
-  return 0;
-}
+  Instances created;
+  map_iter_t iter;
+  DLiteInstance *inst;
 
+  map_init(&created);
+  if ((inst = mapping_map_rec(m, inputs, &created)))
+    dlite_instance_incref(inst);
 
+  /* Release all instances created by the mappings */
+  iter = map_iter(&created);
+  while ((uri = map_next(&created, &iter)))
+    dlite_instance_decref(*map_get(&created, uri));
 
-/* Recursive help function that removes all references to input instances
-   found in `m`, from `inputs`. */
-void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
-{
-  int i;
-  for (i=0; i < m->ninput; i++) {
-    if (m->input_maps[i])
-      remove_inputs_rec(m->input_maps[i], inputs);
-    else {
-      map_remove(inputs, m->input_uris[i]);
-    }
-  }
-  map_remove(inputs, m->output_uri);
+  map_deinit(&created);
+  return inst;
 }
 
+
 /*
   Applies the mapping `m` on `instances` (array of length `n` of
   instance pointers) and returns a new instance.
@@ -395,43 +360,16 @@ void remove_inputs_rec(const DLiteMapping *m, Instances *inputs)
 DLiteInstance *dlite_mapping_map(const DLiteMapping *m,
                                  const DLiteInstance **instances, int n)
 {
-  int i;
-  const char *key;
+  DLiteInstance *inst=NULL;
   Instances inputs;
-  map_iter_t iter;
-  DLiteInstance *inst=NULL, **instp;
 
   map_init(&inputs);
 
   /* Assign instances and check that the metadata of all instances are unique */
-  if (set_inputs(&inputs, instances, n)) {
-    map_deinit(&inputs);
-    return NULL;
-  }
-
-  if ((instp = map_get(&inputs, m->output_uri))) {
-    /* The trivial case - one of the inputs has metadata output URI */
-    assert(!m->name);
-    inst = *instp;
-    assert(inst);
-    dlite_instance_incref(inst);
-  } else {
-    /* Apply mapping */
-    assert(m->name);  /* trivial case is already handled */
-    inst = mapping_map_rec(m, &inputs);
-  }
-
-  /* Done - remove temporary created instances */
-  remove_inputs_rec(m, &inputs);
-  iter = map_iter(&inputs);
-  while ((key = map_next(&inputs, &iter))) {
-    DLiteInstance **ip = map_get(&inputs, key);
-    assert(ip && *ip);
-    dlite_instance_decref(*ip);
-  }
+  if (!set_inputs(&inputs, instances, n))
+    inst = mapping_map_base(m, &inputs);
 
   map_deinit(&inputs);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
@@ -451,17 +389,12 @@ DLiteInstance *dlite_mapping(const char *output_uri,
 
   map_init(&inputs);
 
-  /* Increases refcount on each input instance */
   if (set_inputs(&inputs, instances, n)) goto fail;
   if (!(m = mapping_create_base(output_uri, &inputs))) goto fail;
-  inst = dlite_mapping_map(m, instances, n);
+  inst = mapping_map_base(m, &inputs);
 
  fail:
   if (m) dlite_mapping_free(m);
-
-  /* Decrease refcount */
-  decref_inputs(&inputs);
   map_deinit(&inputs);
-
   return inst;
 }
diff --git a/src/pyembed/dlite-python-mapping.c b/src/pyembed/dlite-python-mapping.c
index 19f6b27..66be677 100644
--- a/src/pyembed/dlite-python-mapping.c
+++ b/src/pyembed/dlite-python-mapping.c
@@ -267,7 +267,6 @@ static DLiteInstance *mapper(const DLiteMappingPlugin *api,
   Py_XDECREF(outinst);
   Py_XDECREF(insts);
   Py_XDECREF(map);
-  for (i=0; i<n; i++) dlite_instance_decref((DLiteInstance *)instances[i]);
   return inst;
 }
 
-- 
2.43.0


From 9075b62a1cefab7e70150fe4bc1db45884760893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:04 +0000
Subject: [PATCH 064/100] fix: mapping plugin paths set before the Python
 module is imported are not lost

---
 src/dlite-mapping-plugins.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dlite-mapping-plugins.c b/src/dlite-mapping-plugins.c
index ed52c6b..716d63d 100644
--- a/src/dlite-mapping-plugins.c
+++ b/src/dlite-mapping-plugins.c
@@ -54,6 +54,11 @@ static Globals *get_globals(void) {
                                                 "DLITE_MAPPING_PLUGIN_DIRS",
                                                 dlite_globals_get());
     if (!g->mapping_plugin_info) goto fail;
+
+    /* Add the state before extending the search path, since looking up the
+       package root may import the Python module, which uses the same state. */
+    if (dlite_globals_add_state(GLOBALS_ID, g, free_globals)) goto fail;
+
     fu_paths_set_platform(&g->mapping_plugin_info->paths, dlite_get_platform());
     if (dlite_use_build_root())
       plugin_path_extend(g->mapping_plugin_info, dlite_MAPPING_PLUGINS, NULL);
@@ -62,12 +67,10 @@ static Globals *get_globals(void) {
 
     /* Make sure that dlite DLLs are added to the library search path */
     dlite_add_dll_path();
-
-    dlite_globals_add_state(GLOBALS_ID, g, free_globals);
   }
   return g;
  fail:
-  if (g) free(g);
+  if (g) free_globals(g);
   return NULL;
 }
 
-- 
2.43.0


From 601482c3c2f24a1cb6cd225d9186a842bd2753ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 065/100] fix: URL check does not read beyond the given length

---
 src/utils/urlsplit.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index c3b8e68..f9fa4f0 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -43,6 +43,16 @@ static int jspn(const char *s, StrCategory cat, int pct, const char *accept)
   return n;
 }
 
+/*
+  Like strcspn(), but looks at no more than the first `len` characters of `s`.
+*/
+static int cspn(const char *s, int len, const char *reject)
+{
+  int n=0;
+  while (n < len && s[n] && !strchr(reject, s[n])) n++;
+  return n;
+}
+
 /*
   Returns non-zero if `url` is a valid URL.
 
@@ -113,10 +123,10 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
 
   /* check authority */
   if (url[n] == '/' && url[n+1] == '/') {
-    int k, authlen=(int)strcspn(url+n+2, "/?#");
+    int k, authlen=cspn(url+n+2, len-n-2, "/?#");
     n += 2;
     if (components) components->authority = url+n;
-    if ((k = (int)strcspn(url+n, "@")) > 0 && k > 0 && k < authlen) {
+    if ((k = cspn(url+n, authlen, "@")) > 0 && k < authlen) {
       /* userinfo */
       assert(url[n+k] == '@');
       if (components) components->userinfo = url+n;
-- 
2.43.0


From bb77a5801eab172ed7c645310f601c1cb215d839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 066/100] fix: dlite_instance_to_memory() returns all bytes and
 reading a file survives an allocation failure

---
 src/dlite-entity.c    | 5 +++--
 src/utils/fileutils.c | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 7620eae..19d94b9 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1262,9 +1262,10 @@ unsigned char *dlite_instance_to_memory(const char *driver,
                api->name), NULL;
 
   if ((n = api->memSaveInstance(api, buf, n, inst, options)) < 0) return NULL;
-  if (!(buf = malloc(n)))
+  /* Some drivers write text with a terminating NUL that is not counted */
+  if (!(buf = calloc(1, n+1)))
     return err(dliteMemoryError, "allocation failure"), NULL;
-  if ((m = api->memSaveInstance(api, buf, n, inst, options)) != n) {
+  if ((m = api->memSaveInstance(api, buf, n+1, inst, options)) != n) {
     assert(m < 0);  // On success, should `m` always be equal to `n`!
     free(buf);
     return NULL;
diff --git a/src/utils/fileutils.c b/src/utils/fileutils.c
index 06ffcf1..8d85bef 100644
--- a/src/utils/fileutils.c
+++ b/src/utils/fileutils.c
@@ -1564,7 +1564,7 @@ char *fu_readfile(FILE *fp)
   }
   newsize = pos + n;
   assert(newsize < size);
-  buf = realloc(buf, newsize + 1);
+  if ((ptr = realloc(buf, newsize + 1))) buf = ptr;  // ok to keep larger buffer
   buf[newsize] = '\0';
   return buf;
 }
-- 
2.43.0


From ee4b2ffd14804d1eeec1f56ef7dd41edd05c71c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:33 +0000
Subject: [PATCH 067/100] fix: JSON append writes the entity itself and errors
 are reported when scanning JSON

---
 src/dlite-json.c  | 60 ++++++++++++++++++++++++-----------------------
 src/utils/jsmnx.c |  4 ++--
 2 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 6c48e45..3e8a9aa 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -481,11 +481,12 @@ int dlite_json_printfile(const char *filename, const DLiteInstance *inst,
 int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
                       DLiteJsonFlag flags)
 {
-  int r, n=0, retval=-1;
+  int r, retval=-1;
   unsigned int ntokens=0;
   jsmn_parser parser;
   jsmntok_t *tokens=NULL;
-  size_t pos;
+  char *buf=NULL, *q;
+  size_t pos, n;
 
   errno = 0;
   jsmn_init(&parser);
@@ -502,18 +503,21 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
      last item. */
   while (isspace((*s)[pos-1]) || (*s)[pos-1] == ',') pos--;
 
-  if (tokens[0].size > 0 && (n = asnpprintf(s, size, pos, ",")) < 0)
-    goto fail;
-  pos += n;
-  if ((n = asnpprintf(s, size, pos, "\n  \"%s\": ", inst->uuid)) < 0)
-    goto fail;
-  pos += n;
-  if ((n = dlite_json_asprint(s, size, pos, inst, 2, flags)) < 0) goto fail;
-  pos += n;
-  if ((n = asnpprintf(s, size, pos, "\n}\n")) < 0) goto fail;
-  pos += n;
+  /* The key is written here, so the value must not be wrapped with a key */
+  if (!(buf = dlite_json_aprint(inst, 2, flags | dliteJsonSingle))) goto fail;
+
+  /* Ensure that the buffer is large enough before writing to it */
+  n = pos + strlen(inst->uuid) + strlen(buf) + 16;
+  if (*size < n) {
+    if (!(q = realloc(*s, n))) FAILCODE(dliteMemoryError, "allocation failure");
+    *s = q;
+    *size = n;
+  }
+  pos += snprintf(*s + pos, *size - pos, "%s\n  \"%s\": %s\n}\n",
+                  (tokens[0].size > 0) ? "," : "", inst->uuid, buf);
   retval = pos - tokens[0].end;
  fail:
+  free(buf);
   free(tokens);
   return retval;
 }
@@ -580,7 +584,7 @@ static int get_uuid(char uuid[DLITE_UUID_LENGTH+1], const char *src,
   if (!(item = jsmn_item(src, (jsmntok_t *)obj, "uuid"))) return 1;
   if (item->end - item->start != DLITE_UUID_LENGTH)
     return err(dliteParseError, "UUID should have length %d, got %d",
-               item->end - item->start, DLITE_UUID_LENGTH);
+               DLITE_UUID_LENGTH, item->end - item->start), -1;
   if (dlite_get_uuidn(uuid, src+item->start, item->end-item->start) < 0)
     return -1;
   return 0;
@@ -872,7 +876,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       jsmntok_t *val = root + n+1;
       int len = key->end - key->start;
       if (key->type != JSMN_STRING) FAIL("expect json keys to be strings");
-      buf = strndup(src+key->start, len);
+      if (!(buf = strndup(src+key->start, len)))
+        FAILCODE(dliteMemoryError, "allocation failure");
       if (dlite_get_uuid(uuid2, buf) < 0) goto fail;
       free(buf);
       buf = NULL;
@@ -882,6 +887,8 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
       }
       n += jsmn_count(val) + 2;
     }
+    if (!inst)
+      FAILCODE1(dliteKeyError, "no instance with id '%s' in json source", id);
   }
   if (!inst) goto fail;
 
@@ -933,22 +940,18 @@ DLiteInstance *dlite_json_fscan(FILE *fp, const char *id, const char *metaid)
 DLiteInstance *dlite_json_scanfile(const char *filename, const char *id,
                                    const char *metaid)
 {
-  DLiteInstance *inst;
+  DLiteInstance *inst=NULL;
   FILE *fp;
-  char *buf;
+  char *buf=NULL;
   if (!(fp = fopen(filename, "r")))
     FAIL1("cannot open storage \"%s\"", filename);
   if (!(buf = fu_readfile(fp))) goto fail;
   if (!(inst = dlite_json_sscan(buf, id, metaid))) {
     /* write full error message */
-    char *msg=NULL;
-    size_t size=0, n=0;
-    n += asnpprintf(&msg, &size, n, "error loading instance ");
-    if (id) n += asnpprintf(&msg, &size, n, "with id \"%s\" ", id);
-    if (metaid) n += asnpprintf(&msg, &size, n, "of type \"%s\" ", metaid);
-    n += asnpprintf(&msg, &size, n, "from file \"%s\"", filename);
-    errx(1, "%s", msg);
-    free(msg);
+    errx(1, "error loading instance %s%s%s%s%s%sfrom file \"%s\"",
+         (id) ? "with id \"" : "", (id) ? id : "", (id) ? "\" " : "",
+         (metaid) ? "of type \"" : "", (metaid) ? metaid : "",
+         (metaid) ? "\" " : "", filename);
   }
  fail:
   if (fp) fclose(fp);
@@ -1019,10 +1022,9 @@ DLiteJsonFormat dlite_json_check(const char *src, const jsmntok_t *tokens,
     fmt = dliteJsonMetaFormat;
     flg |= dliteJsonArrays;
   } else if (props->type == JSMN_OBJECT) {
-    prop = props + 1;
-    assert(prop);
-    if (prop->type == JSMN_OBJECT)
-      fmt = (jsmn_item(src, item, "type")) ?
+    prop = (props->size > 0) ? props + 2 : NULL;  // value of first property
+    if (prop && prop->type == JSMN_OBJECT)
+      fmt = (jsmn_item(src, prop, "type")) ?
         dliteJsonMetaFormat : dliteJsonDataFormat;
     else
       fmt = dliteJsonDataFormat;
@@ -1174,7 +1176,7 @@ DLiteJsonIter *dlite_json_iter_create(const char *src, int length,
   jsmn_init(&parser);
   r = jsmn_parse_alloc(&parser, src, length, &iter->tokens, &iter->ntokens);
   if (r < 0) FAIL1("error parsing json: %s", jsmn_strerror(r));
-  if (r == 0) goto fail;
+  if (r == 0) FAIL("empty json input");
   if (iter->tokens->type != JSMN_OBJECT) FAIL("json root should be an object");
   iter->src = src;
   iter->t = iter->tokens + 1;
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index 6082689..20d8eef 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -162,8 +162,8 @@ const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *key)
   int i, n, nitems;
   int len, keylen=strlen(key);
   if (t->type != JSMN_OBJECT)
-    return errx(1, "expected JSON object in string starting with:\n%.200s\n",
-                js + t->start), NULL;
+    return errx(1, "expected JSON object, got '%.*s'",
+                t->end - t->start, js + t->start), NULL;
   nitems = t->size;
   for (i=0; i<nitems; i++) {
     t++;
-- 
2.43.0


From 5db23cbf9b223bd846333e53b744f3b8918531ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:51 +0000
Subject: [PATCH 068/100] fix: failing to register global state is reported and
 does not leak or abort

---
 src/dlite-codegen.c         | 14 ++++++++------
 src/dlite-entity.c          | 37 +++++++++++++++++++++----------------
 src/dlite-misc.c            |  5 ++++-
 src/dlite-storage-plugins.c |  5 ++++-
 src/dlite-storage.c         |  2 +-
 src/triple.c                |  5 ++++-
 src/triplestore-redland.c   | 16 +++++++++++++---
 7 files changed, 55 insertions(+), 29 deletions(-)

diff --git a/src/dlite-codegen.c b/src/dlite-codegen.c
index 7350387..553766c 100644
--- a/src/dlite-codegen.c
+++ b/src/dlite-codegen.c
@@ -52,7 +52,7 @@ static Globals *get_globals(void)
     if (!(g = calloc(1, sizeof(Globals))))
      FAILCODE(dliteMemoryError, "allocation failure");
 
-    dlite_globals_add_state(GLOBALS_ID, g, free_globals);
+    if (dlite_globals_add_state(GLOBALS_ID, g, free_globals)) goto fail;
   }
   return g;
  fail:
@@ -181,7 +181,7 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
                                   TGenSubs *subs, void *context,
                                   int metameta)
 {
-  Globals *g = get_globals();
+  int native_typenames = dlite_codegen_get_native_typenames();
   int retval = 0;
   const DLiteMeta *meta = (const DLiteMeta *)((Context *)context)->inst;
   const DLiteMeta *m = (metameta) ? meta->meta : meta;
@@ -212,7 +212,7 @@ static int list_properties_helper(TGenBuf *s, const char *template, int len,
     char typename[32], pcdecl[64], ftype[25], isoctype[64];
     dlite_type_set_typename(p->type, p->size, typename, sizeof(typename));
     dlite_type_set_cdecl(p->type, p->size, p->name, nref, pcdecl,
-			 sizeof(pcdecl), g->use_native_typenames);
+			 sizeof(pcdecl), native_typenames);
     dlite_type_set_ftype(p->type, p->size, ftype, sizeof(ftype));
     dlite_type_set_isoctype(p->type, p->size, isoctype, sizeof(isoctype));
 
@@ -483,6 +483,7 @@ int dlite_option_subs(TGenSubs *subs, const char *options)
 FUPaths *dlite_codegen_path_get(void)
 {
   Globals *g = get_globals();
+  if (!g) return NULL;
   if (!g->template_paths_initialised) {
     if (fu_paths_init(&g->template_paths, "DLITE_TEMPLATE_DIRS") < 0)
       return errx(1, "failure initialising codegen template paths"), NULL;
@@ -504,9 +505,9 @@ FUPaths *dlite_codegen_path_get(void)
 void dlite_codegen_path_free(void)
 {
   Globals *g = get_globals();
-  if (g->template_paths_initialised) {
+  if (g && g->template_paths_initialised) {
     fu_paths_deinit(&g->template_paths);
-    g->template_paths_initialised = 1;
+    g->template_paths_initialised = 0;
   }
 }
 
@@ -514,7 +515,7 @@ void dlite_codegen_path_free(void)
 int dlite_codegen_get_native_typenames(void)
 {
   Globals *g = get_globals();
-  return g->use_native_typenames;
+  return (g) ? g->use_native_typenames : 0;
 }
 
 
@@ -522,6 +523,7 @@ int dlite_codegen_get_native_typenames(void)
 void dlite_codegen_set_native_typenames(int use_native_typenames)
 {
   Globals *g = get_globals();
+  if (!g) return;
   g->use_native_typenames = use_native_typenames;
 }
 
diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 19d94b9..c5bdf15 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -64,13 +64,14 @@ static int _instance_store_remove(const DLiteInstance *inst);
 static DLiteInstance *_instance_store_get(const char *id);
 
 
-/* Help function for adding metadata */
-static void _instance_store_addmeta(instance_map_t *istore,
-                                    const DLiteMeta *meta)
+/* Help function for adding metadata.  Returns non-zero on error. */
+static int _instance_store_addmeta(instance_map_t *istore,
+                                   const DLiteMeta *meta)
 {
-  int stat = map_set(istore, meta->uuid, (DLiteInstance *)meta);
-  assert(stat == 0);
+  if (!meta || map_set(istore, meta->uuid, (DLiteInstance *)meta))
+    return err(dliteMemoryError, "allocation failure");
   dlite_instance_incref((DLiteInstance *)meta);
+  return 0;
 }
 
 /* Returns pointer to instance store. */
@@ -81,11 +82,14 @@ static instance_map_t *_instance_store(void)
     if (!(istore = malloc(sizeof(instance_map_t))))
       return err(dliteMemoryError, "allocation failure"), NULL;
     map_init(istore);
-    _instance_store_addmeta(istore, dlite_get_basic_metadata_schema());
-    _instance_store_addmeta(istore, dlite_get_entity_schema());
-    _instance_store_addmeta(istore, dlite_get_collection_entity());
-    dlite_globals_add_state("dlite-instance-store", istore,
-                            _instance_store_free);
+    if (_instance_store_addmeta(istore, dlite_get_basic_metadata_schema()) ||
+        _instance_store_addmeta(istore, dlite_get_entity_schema()) ||
+        _instance_store_addmeta(istore, dlite_get_collection_entity()) ||
+        dlite_globals_add_state("dlite-instance-store", istore,
+                                _instance_store_free)) {
+      _instance_store_free(istore);
+      return NULL;
+    }
   }
   return istore;
 }
@@ -110,11 +114,10 @@ static void _instance_store_free(void *instance_store)
       if (delsize <= ndel) {
         void *ptr;
         delsize += 64;
-        if (!(ptr = realloc(del, delsize*sizeof(DLiteInstance *))))
-          free(del);
+        if (!(ptr = realloc(del, delsize*sizeof(DLiteInstance *)))) break;
         del = ptr;
       }
-      if (del) del[ndel++] = inst;
+      del[ndel++] = inst;
     }
   }
 
@@ -132,8 +135,8 @@ static void _instance_store_free(void *instance_store)
 static int _instance_store_add(const DLiteInstance *inst)
 {
   instance_map_t *istore = _instance_store();
-  assert(istore);
   assert(inst);
+  if (!istore) return -1;
   if (map_get(istore, inst->uuid)) return 1;
   if (map_set(istore, inst->uuid, (DLiteInstance *)inst))
     return err(dliteMemoryError, "allocation failure");
@@ -152,7 +155,7 @@ static int _instance_store_remove(const DLiteInstance *inst)
 {
   instance_map_t *istore = _instance_store();
   DLiteInstance **q;
-  assert(istore);
+  if (!istore) return 1;
   if (!(q = map_get(istore, inst->uuid)) || *q != inst) return 1;
   map_remove(istore, inst->uuid);
 
@@ -168,6 +171,7 @@ static DLiteInstance *_instance_store_get(const char *id)
   DLiteIdType idtype;
   char uuid[DLITE_UUID_LENGTH+1];
   DLiteInstance **instp;
+  if (!istore) return NULL;
   if ((idtype = dlite_get_uuid(uuid, id)) < 0 || idtype == dliteIdRandom)
     return errx(dliteValueError,
                 "id '%s' is neither a valid UUID or a convertable string",
@@ -334,10 +338,11 @@ size_t dlite_instance_size(const DLiteMeta *meta, const size_t *dims)
 char** dlite_istore_get_uuids(int* nuuids)
 {
   instance_map_t* istore = _instance_store();
-  assert(istore);
   const char* uuid;
   map_iter_t iter;
 
+  if (!istore) return NULL;
+
   iter = map_iter(istore);
   *nuuids = 0;
   while ((uuid = map_next(istore, &iter))) (*nuuids)++;
diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 926a8a1..c25d884 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -991,7 +991,10 @@ DLiteErrMask *_dlite_err_mask_get(void)
 
     if (!(mask = calloc(1, sizeof(DLiteErrMask))))
       return fprintf(stderr, "** allocation failure"), NULL;
-    dlite_globals_add_state(ERR_MASK_ID, mask, free);
+    if (dlite_globals_add_state(ERR_MASK_ID, mask, free)) {
+      free(mask);
+      return NULL;
+    }
   }
   return mask;
 }
diff --git a/src/dlite-storage-plugins.c b/src/dlite-storage-plugins.c
index 02addd2..ac63ac2 100644
--- a/src/dlite-storage-plugins.c
+++ b/src/dlite-storage-plugins.c
@@ -50,7 +50,10 @@ static Globals *get_globals(void)
   if (!g) {
     if (!(g = calloc(1, sizeof(Globals))))
       return err(dliteMemoryError, "allocation failure"), NULL;
-    dlite_globals_add_state(GLOBALS_ID, g, free_globals);
+    if (dlite_globals_add_state(GLOBALS_ID, g, free_globals)) {
+      free(g);
+      return NULL;
+    }
   }
   return g;
 }
diff --git a/src/dlite-storage.c b/src/dlite-storage.c
index e83848d..a3a513f 100644
--- a/src/dlite-storage.c
+++ b/src/dlite-storage.c
@@ -56,7 +56,7 @@ static Globals *get_globals(void)
   if (!g) {
     if (!(g = calloc(1, sizeof(Globals))))
      FAILCODE(dliteMemoryError, "allocation failure");
-    dlite_globals_add_state(GLOBALS_ID, g, free_globals);
+    if (dlite_globals_add_state(GLOBALS_ID, g, free_globals)) goto fail;
   }
   return g;
  fail:
diff --git a/src/triple.c b/src/triple.c
index d3e0779..c23d682 100644
--- a/src/triple.c
+++ b/src/triple.c
@@ -34,7 +34,10 @@ static TripleGlobals *get_globals(void)
   if (!g) {
     if (!(g = calloc(1, sizeof(TripleGlobals))))
       return err(1, "allocation failure"), NULL;
-    session_add_state(s, TRIPLE_GLOBALS_ID, g, free_globals);
+    if (session_add_state(s, TRIPLE_GLOBALS_ID, g, free_globals)) {
+      free(g);
+      return NULL;
+    }
   }
   return g;
 }
diff --git a/src/triplestore-redland.c b/src/triplestore-redland.c
index d61ac21..5412db5 100644
--- a/src/triplestore-redland.c
+++ b/src/triplestore-redland.c
@@ -82,7 +82,10 @@ static Globals *get_globals(void)
     g->nmodels = 0;
     g->initialized = 0;
     g->finalize_pending = 0;
-    session_add_state(s, TRIPLESTORE_REDLAND_GLOBALS_ID, g, free_globals);
+    if (session_add_state(s, TRIPLESTORE_REDLAND_GLOBALS_ID, g, free_globals)) {
+      free(g);
+      return NULL;
+    }
   }
   return g;
 }
@@ -113,6 +116,7 @@ static int logger(void *user_data, librdf_log_message *message)
 static void finalize_check()
 {
   Globals *g = get_globals();
+  if (!g) return;
   if (g->finalize_pending && g->nmodels == 0 && g->default_world) {
     if (!dlite_globals_in_atexit() || getenv("DLITE_ATEXIT_FREE"))
       librdf_free_world(g->default_world);
@@ -326,6 +330,7 @@ static int assign_triple_from_statement(Triple *t,
 void triplestore_finalize()
 {
   Globals *g = get_globals();
+  if (!g) return;
   g->finalize_pending = 1;
   finalize_check();
 }
@@ -334,6 +339,7 @@ void triplestore_finalize()
 void triplestore_init()
 {
   Globals *g = get_globals();
+  if (!g) return;
   if (!g->initialized) g->initialized = 1;
   g->finalize_pending = 0;
 }
@@ -343,6 +349,7 @@ void triplestore_init()
 void triplestore_set_default_world(librdf_world *world)
 {
   Globals *g = get_globals();
+  if (!g) return;
   g->default_world = world;
 }
 
@@ -351,6 +358,7 @@ void triplestore_set_default_world(librdf_world *world)
 librdf_world *triplestore_get_default_world()
 {
   Globals *g = get_globals();
+  if (!g) return NULL;
   if (!g->default_world) {
     triplestore_init();
     if (!(g->default_world = librdf_new_world()))
@@ -383,6 +391,7 @@ int triplestore_set_default_storage(const char *name)
   while (*p) {
     if (strcasecmp(name, *p) == 0) {
       Globals *g = get_globals();
+      if (!g) return 1;
       g->default_storage_name = *p;
       return 0;
     }
@@ -395,7 +404,7 @@ int triplestore_set_default_storage(const char *name)
 const char *triplestore_get_default_storage()
 {
   Globals *g = get_globals();
-  return g->default_storage_name;
+  return (g) ? g->default_storage_name : NULL;
 }
 
 
@@ -411,8 +420,9 @@ TripleStore *triplestore_create_with_world(librdf_world *world,
   Globals *g = get_globals();
   TripleStore *ts=NULL;
   librdf_storage *storage=NULL;
+  if (!g) return NULL;
   triplestore_init();
-  if (!world) world = triplestore_get_default_world();
+  if (!world && !(world = triplestore_get_default_world())) return NULL;
   if (!storage_name) storage_name = g->default_storage_name;
 
   if (!(storage = librdf_new_storage(world, storage_name, name, options)))
-- 
2.43.0


From 766e1508423ec99511f4075eda32f9d7cf49068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 069/100] fix: do not write or read outside the error message
 buffer

A message that fills the buffer made the following snprintf() calls get a
huge size, and the record was linked to its parent with wrong sizes given
to strncat() and strncpy().
---
 src/utils/err.c | 74 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 19 deletions(-)

diff --git a/src/utils/err.c b/src/utils/err.c
index b815d03..fdd198c 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -184,6 +184,31 @@ static char *errlevel_names[] = {
 };
 
 
+/* Appends formatted text at position `n` of message buffer `buf` of size
+   `size`.  The text is truncated if it doesn't fit in `buf`.
+
+   Returns the position after the (untruncated) text.  It is fine to call
+   this function with such a position beyond the end of the buffer. */
+static int vappend(char *buf, size_t size, int n, const char *fmt, va_list ap)
+{
+  int m = ((size_t)n < size) ?
+    vsnprintf(buf + n, size - n, fmt, ap) : vsnprintf(NULL, 0, fmt, ap);
+  return (m > 0) ? n + m : n;
+}
+
+static int append(char *buf, size_t size, int n, const char *fmt, ...)
+  __attribute__ ((__format__ (__printf__, 4, 5)));
+
+static int append(char *buf, size_t size, int n, const char *fmt, ...)
+{
+  va_list ap;
+  va_start(ap, fmt);
+  n = vappend(buf, size, n, fmt, ap);
+  va_end(ap);
+  return n;
+}
+
+
 /* Reports the error and returns `eval`.  Args:
  *  errlevel : error level
  *  eval     : error value that is returned or passed exit()
@@ -236,7 +261,7 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     case errOverrideAppend:
       n = strlen(errmsg);
       tls->err_record->pos = n;
-      n += snprintf(errmsg + n, errsize - n, "%s", err_append_sep);
+      n = append(errmsg, errsize, n, "%s", err_append_sep);
       break;
     case errOverrideWarnOld:
       if (stream) fprintf(stream, "Warning: Overriding old error: '%s'\n",
@@ -266,30 +291,32 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
   if (!ignore_new_error) {
     Globals *g = tls->globals;
 
+    if (!n) tls->err_record->pos = 0;
+
     if (g->err_prefix && *g->err_prefix)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", g->err_prefix);
+      n = append(errmsg, errsize, n, "%s: ", g->err_prefix);
 
     if (debug_mode >= 1)
-      n += snprintf(errmsg + n, errsize - n, "%s: ", file);
+      n = append(errmsg, errsize, n, "%s: ", file);
     if (debug_mode >= 2)
-      n += snprintf(errmsg + n, errsize - n, "in %s(): ", func);
+      n = append(errmsg, errsize, n, "in %s(): ", func);
 
     if (eval) {
       if (nameconv)
-        n += snprintf(errmsg + n, errsize - n, "%s%s: ", nameconv(eval),
-                      (errlevel_name && *errlevel_name) ?
-                      errlevel_name : "");
+        n = append(errmsg, errsize, n, "%s%s: ", nameconv(eval),
+                   (errlevel_name && *errlevel_name) ?
+                   errlevel_name : "");
       else
-        n += snprintf(errmsg + n, errsize - n, "%s %d: ",
-                      (errlevel_name && *errlevel_name) ?
-                      errlevel_name : "Errval", eval);
+        n = append(errmsg, errsize, n, "%s %d: ",
+                   (errlevel_name && *errlevel_name) ?
+                   errlevel_name : "Errval", eval);
     } else if (errlevel_name && *errlevel_name) {
-      n += snprintf(errmsg + n, errsize - n, "%s: ", errlevel_name);
+      n = append(errmsg, errsize, n, "%s: ", errlevel_name);
     }
     if (msg && *msg)
-      n += vsnprintf(errmsg + n, errsize - n, msg, ap);
+      n = vappend(errmsg, errsize, n, msg, ap);
     if (errnum)
-      n += snprintf(errmsg + n, errsize - n, ": %s", strerror(errnum));
+      n = append(errmsg, errsize, n, ": %s", strerror(errnum));
     if (n >= (int)errsize && stream)
       fprintf(stream,
               "Warning: error %d truncated due to full message buffer: %s",
@@ -760,6 +787,8 @@ void err_default_handler(const ErrRecord *record)
   if (record->pos) {
     int m = strspn(msg, "\n");
     int n = strlen(err_append_sep) - m;
+    if (n < 0) n = 0;
+    if (n > (int)strlen(msg+m)) n = strlen(msg+m);
     fprintf(stream, "%.*s", n, msg+m);
     msg += m+n;
   }
@@ -771,17 +800,21 @@ void err_default_handler(const ErrRecord *record)
     ErrDebugMode debug_mode = err_get_debug_mode();
     if (g->err_prefix && *g->err_prefix) {
       n = strlen(g->err_prefix) + 2;
+      if (n > (int)strlen(msg)) n = strlen(msg);
       if (!record->pos) fprintf(stream, "\033[02;31m%.*s", n, msg);
       msg += n;
     }
     if (debug_mode >= 1) {
-      n = strcspn(msg, ":") + 1;
+      n = strcspn(msg, ":");
+      if (msg[n]) n++;
       n += (msg[0] == '(') ? 1 : strcspn(msg+n, ":") + 2;
+      if (n > (int)strlen(msg)) n = strlen(msg);
       fprintf(stream, "\033[00;34m%.*s", n, msg);
       msg += n;
     }
     if (debug_mode >= 2) {
       n = strcspn(msg, ":") + 2;
+      if (n > (int)strlen(msg)) n = strlen(msg);
       fprintf(stream, "\033[02;32m%.*s", n, msg);
       msg += n;
     }
@@ -872,15 +905,15 @@ void _err_unlink_record(ErrRecord *record)
     int eval = (record->reraise) ? record->reraise : record->eval;
     ErrAbortMode abort_mode = err_get_abort_mode();
     int ignore_new = 0;
-    int n = 0;
+    int n = 0, pos = 0;
 
     if (tls->err_record->eval) {
       switch (err_get_override_mode()) {
       case errOverrideEnv:
       case errOverrideAppend:
-        n = strlen(tls->err_record->msg);
-        strncat(tls->err_record->msg+n, err_append_sep, ERR_MSGSIZE-n);
-        n += strlen(err_append_sep);
+        pos = strlen(tls->err_record->msg);
+        n = append(tls->err_record->msg, ERR_MSGSIZE, pos, "%s",
+                   err_append_sep);
         break;
       case errOverrideWarnOld:
         fprintf(stderr, "** Warning: overwriting old error: %s\n",
@@ -900,7 +933,10 @@ void _err_unlink_record(ErrRecord *record)
     tls->err_record->level = record->level;
     tls->err_record->eval = eval;
     tls->err_record->errnum = record->errnum;
-    if (!ignore_new) strncpy(tls->err_record->msg+n, record->msg, ERR_MSGSIZE-n);
+    if (!ignore_new) {
+      append(tls->err_record->msg, ERR_MSGSIZE, n, "%s", record->msg);
+      tls->err_record->pos = pos;
+    }
 
     if (record->level == errLevelException && tls->err_record->prev)
       longjmp(tls->err_record->env, eval);
-- 
2.43.0


From 43339afb35359a165468d1cbd052d83c67676d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 070/100] fix: do not let a warning clear a pending error

A warning sets the error value of the current record to zero, so an error
that was already reported (but not yet caught or returned) got lost.
---
 src/utils/err.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/utils/err.c b/src/utils/err.c
index fdd198c..a6af29b 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -232,6 +232,8 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
   ErrWarnMode warn_mode = err_get_warn_mode();
   ErrOverrideMode override = err_get_override_mode();
   int ignore_new_error = 0;
+  ErrLevel pending_level = 0;
+  int pending_eval = 0, pending_errnum = 0;
   ErrHandler handler = err_get_handler();
   ErrNameConv nameconv = err_get_nameconv();
 
@@ -282,6 +284,15 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     }
   }
 
+  /* A message that is not an error should not hide a pending error whose
+     message is kept */
+  if (errlevel < errLevelError && override != errOverrideOld &&
+      override != errOverrideWarnOld) {
+    pending_level = tls->err_record->level;
+    pending_eval = tls->err_record->eval;
+    pending_errnum = tls->err_record->errnum;
+  }
+
   /* Update the current error record */
   tls->err_record->level = errlevel;
   tls->err_record->eval = eval;
@@ -358,6 +369,13 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     if (handler) handler(tls->err_record);
   }
 
+  /* Restore pending error */
+  if (pending_eval) {
+    tls->err_record->level = pending_level;
+    tls->err_record->eval = pending_eval;
+    tls->err_record->errnum = pending_errnum;
+  }
+
   /* Clear errno */
   errno = 0;
 
-- 
2.43.0


From 1e984dd5f145f5686547acf277c1a5cd3932afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:13 +0000
Subject: [PATCH 071/100] fix: do not lose uncaught errors from an ErrTry block
 within a handler

Errors that were not caught by an ErrTry block in e.g. an ErrCatch or
ErrFinally clause disappeared, since the enclosing block counted them as
handled.
---
 src/utils/err.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/err.c b/src/utils/err.c
index a6af29b..b3b4860 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -956,6 +956,11 @@ void _err_unlink_record(ErrRecord *record)
       tls->err_record->pos = pos;
     }
 
+    /* If the parent ErrTry handler is after its try clause, the error
+       should be reraised after leaving the handler. */
+    if (tls->err_record->state)
+      tls->err_record->reraise = eval;
+
     if (record->level == errLevelException && tls->err_record->prev)
       longjmp(tls->err_record->env, eval);
 
-- 
2.43.0


From 20fd5049a5d2f281b8aa7cfee6f4c13b9a21f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:42 +0000
Subject: [PATCH 072/100] fix: do not mix up error codes in the mask of ignored
 errors

DLITE_ERRBIT() shifted a 32 bit int, so ignoring e.g. dliteMappingError
(-32) on x86 ignored unknown errors (bit 0) instead.
---
 src/dlite-misc.c | 4 ++--
 src/dlite-misc.h | 8 +++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index c25d884..25617a5 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1011,7 +1011,7 @@ void _dlite_err_mask_set(DLiteErrMask mask)
 void dlite_err_ignored_set(DLiteErrCode code, int value)
 {
   DLiteErrMask *mask = _dlite_err_mask_get();
-  int bit = DLITE_ERRBIT(code);
+  DLiteErrMask bit = DLITE_ERRBIT(code);
   if (mask) {
     if (value)
       *mask |= bit;
@@ -1026,7 +1026,7 @@ int dlite_err_ignored_get(DLiteErrCode code)
   DLiteErrMask *mask = _dlite_err_mask_get();
   if (!mask) return 0;
   if (code > 0 && (*mask & DLITE_ERRBIT(dliteUnknownError))) return 1;
-  return (int)(*mask) & DLITE_ERRBIT(code);
+  return (*mask & DLITE_ERRBIT(code)) ? 1 : 0;
 }
 
 
diff --git a/src/dlite-misc.h b/src/dlite-misc.h
index 714109a..5f212ad 100644
--- a/src/dlite-misc.h
+++ b/src/dlite-misc.h
@@ -471,16 +471,18 @@ DLiteErrMask *_dlite_err_mask_get(void);
 void _dlite_err_mask_set(DLiteErrMask mask);
 
 #define DLITE_ERRBIT(code)                                              \
-  ((int)1<<(int)((code >= 0) ? 0 : (code <= dliteLastError) ? -dliteLastError : -code))
+  ((DLiteErrMask)1<<(int)(((code) >= 0) ? 0 :                           \
+                          ((code) <= dliteLastError) ? -dliteLastError : \
+                          -(code)))
 
 #define DLITE_NOERR(mask)                                       \
   do {                                                          \
     DLiteErrMask *_errmaskptr = _dlite_err_mask_get();          \
     DLiteErrMask _errmask = (_errmaskptr) ? *_errmaskptr : 0;   \
-    dlite_err_mask_set(mask)
+    _dlite_err_mask_set(mask)
 
 #define DLITE_NOERR_END                                         \
-    dlite_err_mask_set(_errmask);                               \
+    _dlite_err_mask_set(_errmask);                              \
   } while (0)
 
 
-- 
2.43.0


From 67e230be21123088f3902feb208cb04716e74383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:42 +0000
Subject: [PATCH 073/100] fix: let dlite_err_set_file() write to the given file

---
 src/dlite-misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 25617a5..9632c33 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -1124,9 +1124,9 @@ void dlite_err_set_file(const char *filename)
   FILE *fp;
   if (!filename || !*filename)
     err_set_stream(NULL);
-  else if (strcmp(filename, "<stdout>"))
+  else if (strcmp(filename, "<stdout>") == 0)
     err_set_stream(stdout);
-  else if (strcmp(filename, "<stderr>"))
+  else if (strcmp(filename, "<stderr>") == 0)
     err_set_stream(stderr);
   else if ((fp = fopen(filename, "a")))
     err_set_stream(fp);
-- 
2.43.0


From 11ceee67ca613e7258b556f9f87af1d80c6a27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:42 +0000
Subject: [PATCH 074/100] fix: successful calls should not clear or change the
 error of their caller

Loading a plugin cleared a pending error and loading an instance changed
its error code.
---
 src/dlite-entity.c | 2 +-
 src/utils/plugin.c | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index c5bdf15..52df280 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1103,7 +1103,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
   if (d) dlite_datamodel_free(d);
   if (uri) free((char *)uri);
   if (dims) free(dims);
-  err_update_eval(dliteStorageLoadError);
+  if (!instance) err_update_eval(dliteStorageLoadError);
   return instance;
 }
 
diff --git a/src/utils/plugin.c b/src/utils/plugin.c
index 50c67a0..5cfabf6 100644
--- a/src/utils/plugin.c
+++ b/src/utils/plugin.c
@@ -199,6 +199,7 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
   PluginFunc func;
   PluginAPI *api=NULL, **apiptr;
   const void *loaded_api=NULL, *retval=NULL;
+  int pending_error = err_geteval();  /* do not clear errors of our caller */
 
   /* Check if plugin is already loaded */
   if (name && (apiptr = map_get(&info->apis, name)))
@@ -208,7 +209,7 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
 
   while ((filepath = fu_nextmatch(iter))) {
     int iter1=0, iter2=0, nregistered=0;
-    err_clear();
+    if (!pending_error) err_clear();
 
     /* load plugin */
     if (!(handle = dsl_open(filepath))) {
@@ -222,7 +223,7 @@ const PluginAPI *plugin_load(PluginInfo *info, const char *name,
       handle = NULL;
       continue;
     }
-    err_clear();
+    if (!pending_error) err_clear();
 
     /* Silence gcc warning about that ISO C forbids conversion of object
        pointer to function pointer */
-- 
2.43.0


From 7d6bd40fa98aec8279f7129ad4ca5a6bc365d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:51 +0000
Subject: [PATCH 075/100] fix: match warnings pattern against the new warning
 only

When the warning is appended to an earlier error message, the pattern
should still be matched against the warning itself.
---
 src/dlite-misc.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 9632c33..bb51d81 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -844,7 +844,16 @@ static void dlite_err_handler(const ErrRecord *record)
   case errLevelInfo:
   case errLevelWarn:
     if (locals->warnings_pattern) {
-      int match = !globmatch(locals->warnings_pattern, record->msg);
+      const char *msg = record->msg;
+      size_t len = strlen(msg);
+      int match;
+
+      /* Match against the new message if it was appended to an old one */
+      if (record->pos > 0) {
+        msg += ((size_t)record->pos < len) ? (size_t)record->pos : len;
+        msg += strspn(msg, "\n -");
+      }
+      match = !globmatch(locals->warnings_pattern, msg);
       if ((match && !locals->warnings_hide) ||
           (!match && locals->warnings_hide))
         err_default_handler(record);
-- 
2.43.0


From 0aa3f146a22a7221973fb71c4e145cfc67fe229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:51 +0000
Subject: [PATCH 076/100] fix: do not let a thread that loads a plugin share
 error records with another

err_set_state() copied the thread local state of the thread that
initialised dlite, including the pointer to its current error record.
---
 src/utils/err.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/err.c b/src/utils/err.c
index b3b4860..f4f0cc3 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -162,6 +162,12 @@ void err_set_state(void *state)
 {
   if (state) {
     ThreadLocals *src = state;
+
+    /* The state belongs to this module (as when a plugin linking to the same
+       library is loaded).  Don't replace the state of the current thread
+       with that of the thread that called err_get_state(). */
+    if (src->globals == &_globals) return;
+
     memcpy(&_tls, src, sizeof(ThreadLocals));
     memcpy(&_globals, src->globals, sizeof(Globals));
   } else {
-- 
2.43.0


From 69a7faafc14eab6ed594002e23d5f7bc472207b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 077/100] fix: let warnings that are turned into errors be
 errors

Without an error value they were neither seen by err_geteval(), ErrCatch
and ErrOther nor reported if they occured in an ErrTry block.
---
 src/utils/err.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/err.c b/src/utils/err.c
index f4f0cc3..c60a2c2 100644
--- a/src/utils/err.c
+++ b/src/utils/err.c
@@ -257,6 +257,7 @@ int _err_vformat(ErrLevel errlevel, int eval, int errnum, const char *file,
     case errWarnError:
       errlevel = errLevelError;
       errlevel_name = errlevel_names[errlevel];
+      if (!eval) eval = 1;  // an error must have a non-zero error value
       break;
     default:  // should never be reached
       assert(0);
-- 
2.43.0


From 1bb6429c8e3b9f3ff75a6285842a998894818048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 078/100] fix: an error in an ErrCatch clause is not caught by
 the next ErrCatch

Only errors in the try clause should be caught by the clauses of the block.
---
 src/utils/err.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/err.h b/src/utils/err.h
index d1a9eff..1cdd131 100644
--- a/src/utils/err.h
+++ b/src/utils/err.h
@@ -730,7 +730,8 @@ ErrRecord *_err_get_record();
     }                                                \
     _ft = _fallthrough;                              \
     _fallthrough = 0;                                \
-    _last = (_record.eval == errval) || _ft;         \
+    _last = (!_record.state &&                       \
+             _record.eval == errval) || _ft;         \
     _record.handled |= _last;                        \
     if (_last) _record.state = errTryCatch;          \
     switch (_last ? 1 : 0) {                         \
-- 
2.43.0


From f7fe32a291962d20d52048482228f133a446d8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:40 +0000
Subject: [PATCH 079/100] fix: use the dimensions of the property that a
 negative index refers to

---
 bindings/python/dlite-python.i | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 223df59..d5daf27 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1066,7 +1066,7 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     obj = dlite_swig_get_array(inst, p->ndims, shape, p->type, p->size, *ptr);
   }
@@ -1099,7 +1099,7 @@ int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
     for (j=0; j<p->ndims; j++) {
       if (!p->shape[j])
         FAIL2("missing dimension %d of property %d", j, i);
-      shape[j] = (int)DLITE_PROP_DIM(inst, i, j);
+      shape[j] = (int)DLITE_PROP_DIM(inst, n, j);
     }
     if (dlite_swig_set_array(ptr, p->ndims, shape, p->type, p->size, obj))
       goto fail;
-- 
2.43.0


From f7231e6fd6140a4601b729adc6f85ef18f5ca9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:40 +0000
Subject: [PATCH 080/100] fix: do not read past, or assign a part of, a blob of
 another size

---
 bindings/python/dlite-python.i | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index d5daf27..04c1b2e 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -214,7 +214,8 @@ void dlite_swig_capsule_free(PyObject *cap)
 
 
 /* Convert Python object `src` to a sequence of bytes (blob) and write
-   the result to `dest`.  At most `n` bytes are written to `dest`.
+   the result to `dest`.  Nothing is written to `dest` if `src` is not
+   exactly `n` bytes.
 
    All Python types supporting the buffer protocol as well as hex-encoded
    strings are converted.
@@ -228,13 +229,16 @@ int dlite_swig_read_python_blob(PyObject *src, uint8_t *dest, size_t n)
     Py_ssize_t len;
     const char *s = PyUnicode_AsUTF8AndSize(src, &len);
     if (!s) FAIL("failed representing string as UTF-8");
+    if (len/2 != (Py_ssize_t)n)
+      FAIL2("hex-encoded string is %d bytes, expected %d",
+            (int)(len/2), (int)n);
     if (strhex_decode(dest, n, s, (int)len) < 0)
       FAIL("cannot convert Python string to blob");
     retval = (int)len/2;
   } else if (PyObject_CheckBuffer(src)) {
     Py_buffer view;
     if (PyObject_GetBuffer(src, &view, PyBUF_SIMPLE)) goto fail;
-    memcpy(dest, view.buf, n);
+    if (view.len == (Py_ssize_t)n) memcpy(dest, view.buf, n);
     retval = (int)(view.len);
     PyBuffer_Release(&view);
   } else {
-- 
2.43.0


From 00acf45fe7e6e041dc5f8539e0d9f0304d60965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:40 +0000
Subject: [PATCH 081/100] fix: raise an exception when an integer does not fit
 into the property

---
 bindings/python/dlite-python.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 04c1b2e..5bff6e0 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -723,6 +723,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
 #endif
       if (overflow) FAIL("overflow when converting to int");
       if (PyErr_Occurred()) FAIL("cannot convert to int");
+      if (size < sizeof(value) &&
+          (value >> (8*size - 1)) != 0 && (value >> (8*size - 1)) != -1)
+        FAIL1("overflow when converting to int%d", (int)(8*size));
       switch (size) {
       case 1: *((int8_t *)ptr)  =  (int8_t)value; break;
       case 2: *((int16_t *)ptr) = (int16_t)value; break;
@@ -741,6 +744,8 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
       unsigned long value = PyLong_AsUnsignedLong(obj);
 #endif
       if (PyErr_Occurred()) FAIL("cannot convert to unsigned int");
+      if (size < sizeof(value) && (value >> (8*size)) != 0)
+        FAIL1("overflow when converting to uint%d", (int)(8*size));
       switch (size) {
       case 1: *((uint8_t *)ptr)  =  (uint8_t)value;  break;
       case 2: *((uint16_t *)ptr) = (uint16_t)value; break;
-- 
2.43.0


From bc271c52023143ddef2c97174023ffdc8b5067ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:40 +0000
Subject: [PATCH 082/100] fix: let an iterator over a collection keep the
 collection alive

---
 bindings/python/dlite-collection.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 789a34d..ff38491 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -136,6 +136,8 @@ struct _DLiteCollection {
       return dlite_err(1, "not a collection: %s", inst->uuid), NULL;
     struct _CollectionIter *iter = calloc(1, sizeof(struct _CollectionIter));
     DLiteCollection *coll = (DLiteCollection *)inst;
+    if (!iter) return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+    dlite_collection_incref(coll);
     iter->coll = coll;
     iter->s = (s) ? strdup(s) : NULL;
     iter->p = (p) ? strdup(p) : NULL;
@@ -148,6 +150,7 @@ struct _DLiteCollection {
 
   ~_CollectionIter(void) {
     dlite_collection_deinit_state(&$self->state);
+    dlite_collection_decref($self->coll);
     if ($self->s) free($self->s);
     if ($self->p) free($self->p);
     if ($self->o) free($self->o);
-- 
2.43.0


From e9549cd6bdfb2e528e1f1a17f0f74ed19d3d21f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 083/100] fix: let a triple be set from its own parts and keep
 its value on error

---
 src/triple.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/triple.c b/src/triple.c
index c23d682..3f03df6 100644
--- a/src/triple.c
+++ b/src/triple.c
@@ -104,8 +104,14 @@ int triple_set(Triple *t, const char *s, const char *p, const char *o,
 int triple_reset(Triple *t, const char *s, const char *p, const char *o,
                  const char *d, const char *id)
 {
+  Triple tmp;
+  int stat;
+  /* The arguments may refer to the old values stored in `t` */
+  memset(&tmp, 0, sizeof(tmp));
+  if ((stat = triple_set(&tmp, s, p, o, d, id))) return stat;
   triple_clean(t);
-  return triple_set(t, s, p, o, d, id);
+  *t = tmp;
+  return 0;
 }
 
 /*
-- 
2.43.0


From 1c73f488fc6149479922249b88baf4cc0a15ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 084/100] fix: no null pointer dereference when an unknown
 driver is reported while out of memory

---
 src/dlite-storage-plugins.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-storage-plugins.c b/src/dlite-storage-plugins.c
index ac63ac2..3362dcc 100644
--- a/src/dlite-storage-plugins.c
+++ b/src/dlite-storage-plugins.c
@@ -161,11 +161,11 @@ const DLiteStoragePlugin *dlite_storage_plugin_get(const char *name)
     r = asnpprintf(&buf, &size, m,
                    "   The following Python plugins were also checked:\n");
     if (r >= 0) m += r;
-    while ((p = fu_nextmatch(iter))) {
+    while (iter && (p = fu_nextmatch(iter))) {
       r = asnpprintf(&buf, &size, m, "   - %s\n", p);
       if (r >= 0) m += r;
     }
-    fu_endmatch(iter);
+    if (iter) fu_endmatch(iter);
 
     if ((failed_paths = dlite_python_storage_failed_paths())) {
       r = asnpprintf(&buf, &size, m,
-- 
2.43.0


From a6ac9d2dee7e26157045e1e1aac6b980b2be6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 085/100] fix: print the current dimensions of a collection to
 JSON

---
 src/dlite-json.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 3e8a9aa..c93aba8 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -91,6 +91,9 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
   memset(in, ' ', indent);
   in[indent] = '\0';
 
+  /* Make sure that the printed dimensions correspond to the properties */
+  if (dlite_instance_sync_to_dimension_sizes((DLiteInstance *)inst)) goto fail;
+
   PRINT1("%s{\n", in);
   if (inst->uri)
     PRINT2("%s  \"uri\": \"%s\",\n", in, inst->uri);
-- 
2.43.0


From 2c385f552808d37f1c4da62491a549e5f54673a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 086/100] fix: format strings longer than 127 characters
 without reading outside the buffer

---
 src/dlite-misc.c | 11 +++++++----
 src/utils/tgen.c | 14 ++++++++++----
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index bb51d81..5d59f5f 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -451,10 +451,13 @@ char *dlite_join_url(const char *driver, const char *location,
 {
   TGenBuf s;
   tgen_buf_init(&s);
-  if (driver) tgen_buf_append_fmt(&s, "%s://", driver);
-  tgen_buf_append(&s, location, -1);
-  if (options) tgen_buf_append_fmt(&s, "?%s", options);
-  if (fragment) tgen_buf_append_fmt(&s, "#%s", fragment);
+  if ((driver && tgen_buf_append_fmt(&s, "%s://", driver) < 0) ||
+      tgen_buf_append(&s, location, -1) < 0 ||
+      (options && tgen_buf_append_fmt(&s, "?%s", options) < 0) ||
+      (fragment && tgen_buf_append_fmt(&s, "#%s", fragment) < 0)) {
+    tgen_buf_deinit(&s);
+    return NULL;
+  }
   return tgen_buf_steal(&s);
 }
 
diff --git a/src/utils/tgen.c b/src/utils/tgen.c
index fecfa11..f1b1d62 100644
--- a/src/utils/tgen.c
+++ b/src/utils/tgen.c
@@ -548,9 +548,12 @@ int tgen_buf_append(TGenBuf *s, const char *src, int n)
   assert(!s->size || s->buf);
 
   if (needed >= s->size) {
-    s->size = (needed / CHUNKSIZE + 1) * CHUNKSIZE;
-    if (!(s->buf = realloc(s->buf, s->size)))
+    size_t newsize = (needed / CHUNKSIZE + 1) * CHUNKSIZE;
+    char *newbuf = realloc(s->buf, newsize);
+    if (!newbuf)
       return err(TGenAllocationError, "allocation failure");
+    s->buf = newbuf;
+    s->size = newsize;
   }
 
   if (tgen_convert_escape_sequences) {
@@ -591,8 +594,11 @@ int tgen_buf_append_vfmt(TGenBuf *s, const char *fmt, va_list ap)
      with malloc().  Resort to malloc if this fails... */
   if ((n = vsnprintf(buf, sizeof(buf), fmt, ap)) < 1)
     FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
-  if (n <= (int)sizeof(buf)) {
-    src = malloc(n + 1);
+  if (n >= (int)sizeof(buf)) {
+    if (!(src = malloc(n + 1))) {
+      src = buf;
+      FAIL1(TGenAllocationError, "allocation failure (%d bytes)", n + 1);
+    }
     if ((vsnprintf(src, n+1, fmt, ap2)) != n)
       FAIL1(TGenFormatError, "invalid format string \"%s\"", fmt);
   }
-- 
2.43.0


From 637908f8e5a584ce65c6052d6aee23a01f8cf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:33 +0000
Subject: [PATCH 087/100] fix: repr() of an instance with a long uri should not
 overflow the stack

---
 bindings/python/dlite-entity-python.i | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/bindings/python/dlite-entity-python.i b/bindings/python/dlite-entity-python.i
index d1cc80e..e6261fe 100644
--- a/bindings/python/dlite-entity-python.i
+++ b/bindings/python/dlite-entity-python.i
@@ -349,15 +349,14 @@ def get_instance(
 
   %newobject __repr__;
   char *__repr__(void) {
-    int n=0;
-    char buff[256];
-    n += snprintf(buff+n, sizeof(buff)-n, "<Instance:");
-    if ($self->uri && $self->uri[0])
-      n += snprintf(buff+n, sizeof(buff)-n, " uri='%s'", $self->uri);
-    else
-      n += snprintf(buff+n, sizeof(buff)-n, " uuid='%s'", $self->uuid);
-    n += snprintf(buff+n, sizeof(buff)-n, ">");
-    return strdup(buff);
+    bool hasuri = $self->uri && $self->uri[0];
+    const char *id = (hasuri) ? $self->uri : $self->uuid;
+    size_t size = strlen(id) + 32;
+    char *buff;
+    if (!(buff = malloc(size)))
+      return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+    snprintf(buff, size, "<Instance: %s='%s'>", (hasuri) ? "uri" : "uuid", id);
+    return buff;
   }
 
   %newobject _c_ptr;
-- 
2.43.0


From 16312ebceb2669fed912689e3079925f8c27ea37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 088/100] fix: release an instance that turns out not to be a
 collection

---
 bindings/python/dlite-collection.i | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index ff38491..22feffa 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -8,11 +8,13 @@
 /* Returns a collection corresponding to `id`. */
 struct _DLiteCollection *_get_collection(const char *id)
 {
-  struct _DLiteInstance *inst = dlite_instance_get(id);
+  struct _DLiteInstance *inst = (id) ? dlite_instance_get(id) : NULL;
   if (!inst) return dlite_err(dliteTypeError,
-                              "no instance with this id: %s", id), NULL;
-  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0)
+                              "no instance with this id: %s", (id) ? id : ""), NULL;
+  if (strcmp(inst->meta->uri, DLITE_COLLECTION_ENTITY) != 0) {
+    dlite_instance_decref(inst);
     return dlite_err(1, "not a collection: %s", id), NULL;
+  }
   return (DLiteCollection *)inst;
 }
 
@@ -39,7 +41,9 @@ char *_collection_value(DLiteInstance *inst,
 
 int dlite_collection_save(struct _DLiteCollection *coll,
                           struct _DLiteStorage *s);
+%apply const char *NONNULL { const char *url };
 int dlite_collection_save_url(struct _DLiteCollection *coll, const char *url);
+%clear const char *url;
 int dlite_collection_add_relation(struct _DLiteCollection *coll, const char *s,
                                   const char *p, const char *o,
                                   const char *d=NULL);
-- 
2.43.0


From edf873f345be6244f757ac076abedceccfaf27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 089/100] fix: report allocation failures when creating a
 collection iterator

---
 bindings/python/dlite-collection.i | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 22feffa..8ae0be8 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -141,12 +141,18 @@ struct _DLiteCollection {
     struct _CollectionIter *iter = calloc(1, sizeof(struct _CollectionIter));
     DLiteCollection *coll = (DLiteCollection *)inst;
     if (!iter) return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+    if ((s && !(iter->s = strdup(s))) ||
+        (p && !(iter->p = strdup(p))) ||
+        (o && !(iter->o = strdup(o))) ||
+        (d && !(iter->d = strdup(d)))) {
+      if (iter->s) free(iter->s);
+      if (iter->p) free(iter->p);
+      if (iter->o) free(iter->o);
+      free(iter);
+      return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+    }
     dlite_collection_incref(coll);
     iter->coll = coll;
-    iter->s = (s) ? strdup(s) : NULL;
-    iter->p = (p) ? strdup(p) : NULL;
-    iter->o = (o) ? strdup(o) : NULL;
-    iter->d = (d) ? strdup(d) : NULL;
     iter->rettype = rettype;
     dlite_collection_init_state(coll, &iter->state);
     return iter;
-- 
2.43.0


From d9f0da3ef24720b48fe3ce839f88cacef62c5787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 090/100] fix: assign to properties from Python all or nothing,
 and raise exceptions for invalid values

---
 bindings/python/dlite-python.i | 403 ++++++++++++++++++++-------------
 1 file changed, 245 insertions(+), 158 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 5bff6e0..858bd44 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -232,8 +232,12 @@ int dlite_swig_read_python_blob(PyObject *src, uint8_t *dest, size_t n)
     if (len/2 != (Py_ssize_t)n)
       FAIL2("hex-encoded string is %d bytes, expected %d",
             (int)(len/2), (int)n);
-    if (strhex_decode(dest, n, s, (int)len) < 0)
-      FAIL("cannot convert Python string to blob");
+    uint8_t *tmp = malloc((n) ? n : 1);
+    if (!tmp) FAIL("allocation failure");
+    int stat = strhex_decode(tmp, n, s, (int)len);
+    if (stat >= 0) memcpy(dest, tmp, n);
+    free(tmp);
+    if (stat < 0) FAIL("cannot convert Python string to blob");
     retval = (int)len/2;
   } else if (PyObject_CheckBuffer(src)) {
     Py_buffer view;
@@ -270,6 +274,54 @@ void dlite_swig_errclr(void)
 }
 
 
+/* Raises a Python exception for the current DLite error.  For use in
+   typemaps, which are executed outside the exception handling. */
+static void dlite_swig_raise(void)
+{
+  PyErr_SetString(dlite_python_module_error(dlite_errval()), dlite_errmsg());
+}
+
+
+/* Assigns `*dest` to a newly allocated copy of string object `obj`.  It is
+   set to NULL if `obj` is NULL or not a string.  Returns non-zero on error. */
+static int dlite_swig_strdup(char **dest, PyObject *obj)
+{
+  const char *s;
+  *dest = NULL;
+  if (!obj || !PyUnicode_Check(obj)) return 0;
+  if (!(s = PyUnicode_AsUTF8(obj)))
+    return dlite_err(1, "failed representing string as UTF-8");
+  if (!(*dest = strdup(s)))
+    return dlite_err(dliteMemoryError, "allocation failure");
+  return 0;
+}
+
+
+/* Copies `src` to `dest`, which must be zeroed.  Returns non-zero on error. */
+static int dlite_swig_copy_property(DLiteProperty *dest,
+                                    const DLiteProperty *src)
+{
+  int j;
+  dest->type = src->type;
+  dest->size = src->size;
+  if (src->ndims > 0) {
+    if (!(dest->shape = calloc(src->ndims, sizeof(char *)))) goto fail;
+    dest->ndims = src->ndims;
+    for (j=0; j < src->ndims; j++)
+      if (src->shape[j] && !(dest->shape[j] = strdup(src->shape[j])))
+        goto fail;
+  }
+  if (src->name && !(dest->name = strdup(src->name))) goto fail;
+  if (src->ref && !(dest->ref = strdup(src->ref))) goto fail;
+  if (src->unit && !(dest->unit = strdup(src->unit))) goto fail;
+  if (src->description && !(dest->description = strdup(src->description)))
+    goto fail;
+  return 0;
+ fail:
+  return dlite_err(dliteMemoryError, "allocation failure");
+}
+
+
 /* Returns a new array object for the target language or NULL on error.
 
    `inst` : The DLite instance that own the data. If NULL, the returned
@@ -364,15 +416,22 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 {
   int i;
   if (d < ndims) {
-    PyArrayObject *arr = (PyArrayObject *)obj;
-    assert(!PyArray_Check(obj) || PyArray_DIM(arr, d) == shape[d]);
+    Py_ssize_t len = (PyUnicode_Check(obj)) ? -1 : PyObject_Length(obj);
+    if (len != (Py_ssize_t)shape[d]) {
+      PyErr_Clear();
+      return dlite_err(1, "expected a sequence of length %d for dimension %d",
+                       shape[d], d);
+    }
     for (i=0; i<shape[d]; i++) {
       int stat;
       PyObject *key = PyLong_FromLong(i);
       PyObject *item = PyObject_GetItem(obj, key);
       Py_DECREF(key);
 
-      if (!item) return dlite_err(1, "dimension %d had no index %d", d, i);
+      if (!item) {
+        PyErr_Clear();
+        return dlite_err(1, "dimension %d had no index %d", d, i);
+      }
       stat = dlite_swig_setitem(item, ndims, shape, type, size, d+1, ptr);
       Py_DECREF(item);
       if (stat) return stat;
@@ -385,8 +444,36 @@ static int dlite_swig_setitem(PyObject *obj, int ndims, int *shape,
 }
 
 
+/* Help function for setting the elements of an array one by one.  The
+   elements are first converted to a temporary array, such that nothing
+   is assigned if any of them cannot be converted.
+
+   The arguments are the same as for dlite_swig_set_array(), except that
+   `dest` points to the first element.  Returns non-zero on error. */
+static int dlite_swig_set_items(char *dest, int ndims, int *shape,
+                                DLiteType type, size_t size, PyObject *obj)
+{
+  int i, n=1, stat;
+  char *items;
+  void *ptr;
+  for (i=0; i<ndims; i++) n *= shape[i];
+  if (!(items = calloc((n) ? n : 1, size)))
+    return dlite_err(dliteMemoryError, "allocation failure");
+  ptr = items;
+  if (!(stat = dlite_swig_setitem(obj, ndims, shape, type, size, 0, &ptr))) {
+    for (i=0; i<n; i++) dlite_type_clear(dest + i*size, type, size);
+    memcpy(dest, items, n*size);
+  } else {
+    for (i=0; i<n; i++) dlite_type_clear(items + i*size, type, size);
+  }
+  free(items);
+  return stat;
+}
+
+
 /* Sets memory pointed to by `ptr` to data from array object `obj` in the
-   target language.  Returns non-zero on error.
+   target language.  Returns non-zero on error, in which case the memory
+   is unchanged.
 
    `ptr`  : Pointer to memory that will be written to.  Must be at least
             of size `N`, where `N` is the product of all elements in `shape`
@@ -410,9 +497,9 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
   if (!(arr = (PyArrayObject *)PyArray_ContiguousFromAny(obj, typecode,
                                                          ndims, ndims))) {
     /* Clear the error and try to convert object as-is */
-    void *p = *(void **)ptr;
     PyErr_Clear();
-    return dlite_swig_setitem((PyObject *)obj, ndims, shape, type, size, 0, &p);
+    return dlite_swig_set_items(*(char **)ptr, ndims, shape, type, size,
+                                (PyObject *)obj);
   }
 
   /* Check dimensions */
@@ -434,11 +521,19 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
       char *p = *((char **)ptr);
       size_t len = ((size_t)PyArray_ITEMSIZE(arr) < size) ?
         (size_t)PyArray_ITEMSIZE(arr) : size;
-      memset(p, 0, n*size);
-      for (i=0; i<n; i++, itemptr+=PyArray_ITEMSIZE(arr), p+=size) {
-        strncpy(p, itemptr, len);
-        p[size-1] = '\0';  /* ensure NUL-termination */
+      if ((size_t)PyArray_ITEMSIZE(arr) >= size)
+        for (i=0; i<n; i++)
+          if (!memchr(itemptr + i*PyArray_ITEMSIZE(arr), '\0', size))
+            FAIL1("length of string exceeds available size: %lu",
+                  (unsigned long)size);
+      char *tmp = calloc((n) ? n : 1, size);  /* `arr` may refer to `p` */
+      if (!tmp) FAIL("allocation failure");
+      for (i=0; i<n; i++, itemptr+=PyArray_ITEMSIZE(arr)) {
+        strncpy(tmp + i*size, itemptr, len);
+        tmp[i*size + size-1] = '\0';  /* ensure NUL-termination */
       }
+      memcpy(p, tmp, n*size);
+      free(tmp);
     }
     break;
 
@@ -447,23 +542,13 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
       npy_intp itemsize = PyArray_ITEMSIZE(arr);
       char *itemptr = PyArray_DATA(arr);
       for (i=0; i<n; i++, itemptr+=itemsize) {
-        char **p = *((char ***)ptr);
         PyObject *s = PyArray_GETITEM(arr, itemptr);
-        if (s == Py_None) {
-          if (p[i]) free(p[i]);
-        } else if (PyUnicode_Check(s)) {
-          assert(s);
-          Py_ssize_t len;
-          const char *str = PyUnicode_AsUTF8AndSize(s, &len);
-          if (!str) FAIL("failed representing string as UTF-8");
-          p[i] = realloc(p[i], len+1);
-          memcpy(p[i], str, len+1);
-        } else {
-          FAIL("expected None or unicode elements");
-          Py_DECREF(s);
-        }
-        if (s) Py_DECREF(s);
+        int ok = (s && (s == Py_None || PyUnicode_Check(s)));
+        Py_XDECREF(s);
+        if (!ok) FAIL("expected None or unicode elements");
       }
+      if (dlite_swig_set_items(*(char **)ptr, ndims, shape, type, size,
+                               (PyObject *)arr)) goto fail;
     }
     break;
 
@@ -471,15 +556,15 @@ int dlite_swig_set_array(void *ptr, int ndims, int *shape,
   case dliteDimension:
   case dliteProperty:
   case dliteRelation:
-    {
-      void *p = *(void **)ptr;
-      if (dlite_swig_setitem((PyObject *)arr, ndims, shape,
-                             type, size, 0, &p)) goto fail;
-    }
+    if (dlite_swig_set_items(*(char **)ptr, ndims, shape, type, size,
+                             (PyObject *)arr)) goto fail;
     break;
 
   default:
-    memcpy(*((void **)ptr), PyArray_DATA(arr), n*size);
+    if (PyArray_ITEMSIZE(arr) == (npy_intp)size) {
+      memmove(*((void **)ptr), PyArray_DATA(arr), n*size);
+    } else if (dlite_swig_set_items(*(char **)ptr, ndims, shape, type, size,
+                                    (PyObject *)obj)) goto fail;
   }
 
   retval = 0;
@@ -780,9 +865,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       Py_ssize_t n;
       PyObject *str = PyObject_Str(obj);
-      const char *s = PyUnicode_AsUTF8AndSize(str, &n);
+      const char *s = (str) ? PyUnicode_AsUTF8AndSize(str, &n) : NULL;
       if (!s) {
-        Py_DECREF(str);
+        Py_XDECREF(str);
         FAIL("cannot represent string as UTF-8");
       }
       if (n >= (Py_ssize_t)size) {
@@ -799,10 +884,15 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
     {
       char *p;
       Py_ssize_t n;
+      if (obj == Py_None) {
+        free(*(char **)ptr);
+        *(char **)ptr = NULL;
+        break;
+      }
       PyObject *str = PyObject_Str(obj);
-      const char *s = PyUnicode_AsUTF8AndSize(str, &n);
+      const char *s = (str) ? PyUnicode_AsUTF8AndSize(str, &n) : NULL;
       if (!s) {
-        Py_DECREF(str);
+        Py_XDECREF(str);
         FAIL("cannot represent string as UTF-8");
       }
       if (!(p = realloc(*(void **)ptr, n+1))) {
@@ -824,74 +914,65 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
       } else if (PyUnicode_Check(obj)) {
         const char *s = PyUnicode_AsUTF8(obj);
         if (!s) FAIL("cannot represent string as UTF-8");
-        inst = dlite_instance_get(s);
+        if (!(inst = dlite_instance_get(s)))
+          FAIL1("no instance with id: %s", s);
       } else {
-        inst = dlite_pyembed_get_instance(obj);
+        if (!(inst = dlite_pyembed_get_instance(obj)))
+          FAIL("cannot convert Python object to instance");
       }
-      if (inst || obj == Py_None) {
+      {
         DLiteInstance **q = ptr;
-        if (*q) dlite_instance_decref(*q);
+        DLiteInstance *old = *q;
         *q = inst;
+        if (old) dlite_instance_decref(old);
       }
     }
     break;
 
   case dliteDimension:
     {
-      DLiteDimension *dest = ptr;
+      DLiteDimension dim;
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteDimension, 0))) {
+      int stat=0;
+      memset(&dim, 0, sizeof(dim));
+      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteDimension, 0)) &&
+          p) {
         DLiteDimension *src = (DLiteDimension *)p;
-        if (dest->name)        free(dest->name);
-        if (dest->description) free(dest->description);
-        dest->name        = strdup(src->name);
-        dest->description = (src->description) ? strdup(src->description) :NULL;
+        if ((src->name && !(dim.name = strdup(src->name))) ||
+            (src->description &&
+             !(dim.description = strdup(src->description))))
+          stat = dlite_err(dliteMemoryError, "allocation failure");
       } else if (PySequence_Check(obj) && PySequence_Length(obj) == 2) {
         PyObject *name = PySequence_GetItem(obj, 0);
         PyObject *descr = PySequence_GetItem(obj, 1);
-        if (name && PyUnicode_Check(name)) {
-          if (dest->name)        free(dest->name);
-          if (dest->description) free(dest->description);
-          dest->name = strdup(PyUnicode_AsUTF8(name));
-          dest->description = (descr && PyUnicode_Check(descr)) ?
-            strdup(PyUnicode_AsUTF8(descr)) : NULL;
-        } else {
-          dlite_err(1, "cannot convert Python sequence to dimension");
-        }
+        if (dlite_swig_strdup(&dim.name, name) ||
+            dlite_swig_strdup(&dim.description, descr))
+          stat = -1;
+        else if (!dim.name)
+          stat = dlite_err(1, "cannot convert Python sequence to dimension");
         Py_XDECREF(name);
         Py_XDECREF(descr);
       } else {
         FAIL("cannot convert Python object to dimension");
       }
+      if (stat) {
+        dlite_type_clear(&dim, dliteDimension, sizeof(dim));
+        goto fail;
+      }
+      dlite_type_clear(ptr, dliteDimension, sizeof(dim));
+      memcpy(ptr, &dim, sizeof(dim));
     }
     break;
 
   case dliteProperty:
     {
-      DLiteProperty *dest = ptr;
+      DLiteProperty prop;
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteProperty, 0))) {
-        DLiteProperty *src = (DLiteProperty *)p;
-        if (dest->name)        free(dest->name);
-        if (dest->ref)         free(dest->ref);
-        if (dest->shape)       free_str_array(dest->shape, dest->ndims);
-        if (dest->unit)        free(dest->unit);
-        if (dest->description) free(dest->description);
-        dest->name  = strdup(src->name);
-        dest->type  = src->type;
-        dest->size  = src->size;
-        if (src->ref) dest->ref = strdup(src->ref);
-        dest->ndims = src->ndims;
-        if (src->ndims > 0) {
-          int j;
-          dest->shape = malloc(src->ndims*sizeof(char *));
-          for (j=0; j < src->ndims; j++)
-            dest->shape[j] = strdup(src->shape[j]);
-        } else
-          dest->shape = NULL;
-        dest->unit        = (src->unit) ? strdup(src->unit) : NULL;
-        dest->description = (src->description) ? strdup(src->description) :NULL;
-
+      int stat=0;
+      memset(&prop, 0, sizeof(prop));
+      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__DLiteProperty, 0)) &&
+          p) {
+        stat = dlite_swig_copy_property(&prop, (DLiteProperty *)p);
       } else if (PySequence_Check(obj) && PySequence_Length(obj) == 6) {
         /* We should deprecate this - either remove or change to dict... */
         PyObject *name  = PySequence_GetItem(obj, 0);
@@ -900,68 +981,74 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
         PyObject *shape = PySequence_GetItem(obj, 3);
         PyObject *unit  = PySequence_GetItem(obj, 4);
         PyObject *descr = PySequence_GetItem(obj, 5);
-        DLiteType t;
-        size_t size;
-        if (name && PyUnicode_Check(name) &&
-            type && PyUnicode_Check(type) &&
-            dlite_type_set_dtype_and_size(PyUnicode_AsUTF8(type),
-                                          &t, &size) == 0) {
-          if (dest->name)        free(dest->name);
-          if (dest->ref)         free(dest->ref);
-          if (dest->shape)       free_str_array(dest->shape, dest->ndims);
-          if (dest->unit)        free(dest->unit);
-          if (dest->description) free(dest->description);
-          dest->name = strdup(PyUnicode_AsUTF8(name));
-          dest->type = t;
-          dest->size = size;
-          if (ref != Py_None) dest->ref = strdup(PyUnicode_AsUTF8(ref));
-          if (shape && PyUnicode_Check(shape)) {
-            const char *s = PyUnicode_AsUTF8(shape);
-            int j=0, ndims=(s && *s) ? 1 : 0;
-            while (s[j]) if (s[j++] == ',') ndims++;
-            dest->ndims = ndims;
-            dest->shape = malloc(ndims*sizeof(char *));
+        char *typename=NULL, *shapestr=NULL;
+        if (dlite_swig_strdup(&prop.name, name) ||
+            dlite_swig_strdup(&prop.ref, ref) ||
+            dlite_swig_strdup(&prop.unit, unit) ||
+            dlite_swig_strdup(&prop.description, descr) ||
+            dlite_swig_strdup(&typename, type) ||
+            dlite_swig_strdup(&shapestr, shape)) {
+          stat = -1;
+        } else if (!prop.name || !typename ||
+                   dlite_type_set_dtype_and_size(typename, &prop.type,
+                                                 &prop.size)) {
+          stat = dlite_err(1, "cannot convert Python sequence to property");
+        } else if (shapestr && *shapestr) {
+          const char *s = shapestr;
+          int j=0, ndims=1;
+          while (s[j]) if (s[j++] == ',') ndims++;
+          if (!(prop.shape = calloc(ndims, sizeof(char *)))) {
+            stat = dlite_err(dliteMemoryError, "allocation failure");
+          } else {
+            prop.ndims = ndims;
             s += strspn(s, " \t\n[");
             for (j=0; j<ndims; j++) {
               size_t len;
               s += strspn(s, " \t\n");
               len = strcspn(s, ",] \t\n");
-              dest->shape[j] = strndup(s, len);
-              s += len + 1;
+              if (!(prop.shape[j] = strndup(s, len))) {
+                stat = dlite_err(dliteMemoryError, "allocation failure");
+                break;
+              }
+              s += len;
+              s += strcspn(s, ",");
+              if (*s) s++;
             }
           }
-          dest->unit = (unit && PyUnicode_Check(unit)) ?
-            strdup(PyUnicode_AsUTF8(unit)) : NULL;
-          dest->description = (descr && PyUnicode_Check(descr)) ?
-            strdup(PyUnicode_AsUTF8(descr)) : NULL;
-        } else {
-          dlite_err(1, "cannot convert Python sequence to property");
         }
+        free(typename);
+        free(shapestr);
         Py_XDECREF(name);
         Py_XDECREF(type);
+        Py_XDECREF(ref);
         Py_XDECREF(shape);
         Py_XDECREF(unit);
         Py_XDECREF(descr);
-
       } else {
         FAIL("cannot convert Python object to property");
       }
+      if (stat) {
+        dlite_type_clear(&prop, dliteProperty, sizeof(prop));
+        goto fail;
+      }
+      dlite_type_clear(ptr, dliteProperty, sizeof(prop));
+      memcpy(ptr, &prop, sizeof(prop));
     }
     break;
 
   case dliteRelation:
     {
       void *p;
-      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__Triple, 0))) {
+      if (SWIG_IsOK(SWIG_ConvertPtr(obj, &p, SWIGTYPE_p__Triple, 0)) && p) {
         DLiteRelation *src = (DLiteRelation *)p;
-        triple_reset(ptr, src->s, src->p, src->o, src->d, src->id);
+        if (triple_reset(ptr, src->s, src->p, src->o, src->d, src->id))
+          goto fail;
 
       } else if (PySequence_Check(obj) || PyIter_Check(obj)) {
         int i;
         Py_ssize_t n;
         PyObject *lst;
-        char **s = ptr;  /* cast DLiteRelation to 5 string pointers */
-        assert(sizeof(DLiteRelation) == 5*sizeof(char *));
+        const char *s[5] = {NULL, NULL, NULL, NULL, NULL};
 
         /* Check that `obj` is a sequence of 3 to 5 strings */
         if (!(lst = PySequence_Fast(obj, "not a sequence or iterable")))
@@ -973,7 +1060,7 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
         }
         for (i=0; i<n; i++) {
           PyObject *item = PySequence_Fast_GET_ITEM(lst, i);
-          if (!PyUnicode_Check(item)) {
+          if (!PyUnicode_Check(item) || !(s[i] = PyUnicode_AsUTF8(item))) {
             Py_DECREF(lst);
             FAIL("all elements in a (subject(s), predicate(p), object(o)[, "
                  "datatype(d)[, id]]) relation provided as a sequence must "
@@ -981,26 +1068,10 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
           }
         }
 
-        /* Free old values stored in the relation */
-        for (i=0; i<5; i++)
-          if (s[i]) {
-            free(s[i]);
-            s[i] = NULL;
-          }
-
-        /* Assign new values */
-        for (i=0; i<n; i++) {
-          PyObject *item = PySequence_Fast_GET_ITEM(lst, i);
-          assert(PyUnicode_Check(item));
-          const char *q = PyUnicode_AsUTF8(item);
-          if (!q) FAIL("failed representing string as UTF-8");
-          s[i] = strdup(q);
-        }
-
-        /* Assign id if not already provided */
-        if (n < 5)
-          s[4] = triple_get_id(NULL, s[0], s[1], s[2], s[3]);
+        /* Assign new values. The id is calculated if it is not provided */
+        i = triple_reset(ptr, s[0], s[1], s[2], s[3], s[4]);
         Py_DECREF(lst);
+        if (i) goto fail;
 
       } else if (PyMapping_Check(obj)) {
         char *msg=NULL;
@@ -1022,9 +1093,9 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
             (!(id = PyMapping_GetItemString(obj, "id")) ||
              !PyUnicode_Check(id) || !(sid = PyUnicode_AsUTF8(id))))
           msg = "If given, relation id must be a string";
-        if (!msg)
-          triple_reset(ptr, ss, sp, so,
-                       (d) ? sd : NULL, (id) ? sid : NULL);
+        if (!msg && triple_reset(ptr, ss, sp, so,
+                                 (d) ? sd : NULL, (id) ? sid : NULL))
+          msg = "Cannot assign relation";
         Py_XDECREF(s);
         Py_XDECREF(p);
         Py_XDECREF(o);
@@ -1197,12 +1268,15 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
 /* String (with possible NUL-bytes) */
 %typemap("doc") (const char *INPUT, size_t LEN)
   "string"
-%typemap(in, numinputs=1) (const char *INPUT, size_t LEN) (Py_ssize_t tmp) {
-  PyObject *str = PyObject_Str($input);
-  if (!str) SWIG_exception(SWIG_TypeError, "Cannot get string representation");
-  $1 = (char *)PyUnicode_AsUTF8AndSize(str, &tmp);
+%typemap(in, numinputs=1) (const char *INPUT, size_t LEN)
+  (Py_ssize_t tmp, PyObject *str=NULL) {
+  str = PyObject_Str($input);
+  if (!str || !($1 = (char *)PyUnicode_AsUTF8AndSize(str, &tmp)))
+    SWIG_exception(SWIG_TypeError, "Cannot get string representation");
   $2 = tmp;
-  Py_DECREF(str);
+}
+%typemap(freearg) (const char *INPUT, size_t LEN) {
+  Py_XDECREF(str$argnum);
 }
 
 /* Array of input dimensions */
@@ -1216,16 +1290,16 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   if (!($1 = calloc($2, sizeof(DLiteDimension))))
     SWIG_exception(SWIG_MemoryError, "Allocation failure");
   if (dlite_swig_set_array(&$1, 1, &$2, dliteDimension,
-                           sizeof(DLiteDimension), $input)) SWIG_fail;
+                           sizeof(DLiteDimension), $input)) {
+    dlite_swig_raise();
+    SWIG_fail;
+  }
 }
 %typemap(freearg) (struct _DLiteDimension *dimensions, int ndimensions) {
   if ($1) {
     int i;
-    for (i=0; i<$2; i++) {
-      DLiteDimension *d = $1 + i;
-      free(d->name);
-      if (d->description) free(d->description);
-    }
+    for (i=0; i<$2; i++)
+      dlite_type_clear($1 + i, dliteDimension, sizeof(DLiteDimension));
     free($1);
   }
 }
@@ -1253,18 +1327,16 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   if (!($1 = calloc($2, sizeof(DLiteProperty))))
     SWIG_exception(SWIG_MemoryError, "Allocation failure");
   if (dlite_swig_set_array(&$1, 1, &$2, dliteProperty,
-                           sizeof(DLiteProperty), $input)) SWIG_fail;
+                           sizeof(DLiteProperty), $input)) {
+    dlite_swig_raise();
+    SWIG_fail;
+  }
 }
 %typemap(freearg) (struct _DLiteProperty *properties, int nproperties) {
   if ($1) {
     int i;
-    for (i=0; i<$2; i++) {
-      DLiteProperty *p = $1 + i;
-      free(p->name);
-      if (p->shape) free_str_array(p->shape, p->ndims);
-      if (p->unit) free(p->unit);
-      if (p->description) free(p->description);
-    }
+    for (i=0; i<$2; i++)
+      dlite_type_clear($1 + i, dliteProperty, sizeof(DLiteProperty));
     free($1);
   }
 }
@@ -1294,11 +1366,15 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
   for (i=0; i<$2; i++) {
     void *p;
     PyObject *item = PySequence_GetItem($input, i);
-    if (SWIG_IsOK(SWIG_ConvertPtr(item, &p, SWIGTYPE_p__DLiteInstance, 0))) {
+    int ok = item &&
+      SWIG_IsOK(SWIG_ConvertPtr(item, &p, SWIGTYPE_p__DLiteInstance, 0)) && p;
+    if (ok) {
       $1[i] = (DLiteInstance *)p;
       dlite_instance_incref($1[i]);
     }
     Py_XDECREF(item);
+    if (!ok)
+      SWIG_exception(SWIG_TypeError, "Expected a sequence of instances");
   }
 }
 %typemap(freearg) (struct _DLiteInstance **instances, int ninstances) {
@@ -1333,7 +1409,7 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
     if ((n = PyByteArray_Size($input)) < 0) SWIG_fail;
     if (!(tmp = PyByteArray_AsString($input))) SWIG_fail;
   } else {
-    SWIG_Error(SWIG_TypeError, "argument must be bytes or bytearray");
+    SWIG_exception(SWIG_TypeError, "argument must be bytes or bytearray");
   }
   $1 = (unsigned char *)tmp;
   $2 = n;
@@ -1342,7 +1418,18 @@ PyObject *dlite_run_file(const char *path, PyObject *globals, PyObject *locals)
 /* Bytes object (without explicit length) */
 %typemap("doc") unsigned char *INPUT_BYTES "bytes"
 %typemap(in) unsigned char *INPUT_BYTES {
-  $1 = (unsigned char *)PyBytes_AsString($input);
+  if (!($1 = (unsigned char *)PyBytes_AsString($input))) SWIG_fail;
+}
+
+/* BSON document, whose first four bytes is its size */
+%typemap("doc") unsigned char *INPUT_BSON "bytes"
+%typemap(in) unsigned char *INPUT_BSON {
+  char *tmp=NULL;
+  Py_ssize_t n=0;
+  if (PyBytes_AsStringAndSize($input, &tmp, &n)) SWIG_fail;
+  $1 = (unsigned char *)tmp;
+  if (n < 5 || ($1[0] | $1[1] << 8 | $1[2] << 16 | (Py_ssize_t)$1[3] << 24) > n)
+    SWIG_exception(SWIG_ValueError, "truncated bson document");
 }
 
 /* ---------------
-- 
2.43.0


From acdfbc912486553ed898e1363301970381668f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 091/100] fix: raise exceptions instead of aborting or leaking
 when creating instances from Python

---
 bindings/python/dlite-entity.i | 105 +++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 30 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 065ec1b..a193809 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -18,26 +18,37 @@ dlite_swig_create_property(const char *name, enum _DLiteType type,
                            obj_t *shape, const char *unit,
                            const char *description)
 {
-  DLiteProperty *p = calloc(1, sizeof(DLiteProperty));
-  p->name = strdup(name);
+  DLiteProperty *p;
+  if (!name)
+    return dlite_err(dliteValueError, "property must have a name"), NULL;
+  if (!(p = calloc(1, sizeof(DLiteProperty)))) goto nomem;
+  if (!(p->name = strdup(name))) goto nomem;
   p->type = type;
   p->size = size;
-  if (ref && *ref) p->ref = strdup(ref);
+  if (ref && *ref && !(p->ref = strdup(ref))) goto nomem;
   if (shape && shape != DLiteSwigNone) {
-    p->ndims = (int)PySequence_Length(shape);
-    if (!(p->shape = dlite_swig_copy_array(1, &p->ndims, dliteStringPtr,
-                                           sizeof(char *), shape))) {
-      free(p->name);
-      free(p);
-      return NULL;
+    int ndims = (int)PySequence_Length(shape);
+    if (ndims < 0) {
+      dlite_err(dliteTypeError, "shape of property '%s' must be a sequence",
+                name);
+      goto fail;
     }
-  } else {
-    p->ndims = 0;
-    p->shape = NULL;
+    if (!(p->shape = dlite_swig_copy_array(1, &ndims, dliteStringPtr,
+                                           sizeof(char *), shape)))
+      goto fail;
+    p->ndims = ndims;
   }
-  if (unit) p->unit = strdup(unit);
-  if (description) p->description = strdup(description);
+  if (unit && !(p->unit = strdup(unit))) goto nomem;
+  if (description && !(p->description = strdup(description))) goto nomem;
   return p;
+ nomem:
+  dlite_err(dliteMemoryError, "allocation failure");
+ fail:
+  if (p) {
+    dlite_type_clear(p, dliteProperty, sizeof(DLiteProperty));
+    free(p);
+  }
+  return NULL;
 }
 
 /* Returns a pointer to a new target language object for property `name`.
@@ -64,6 +75,7 @@ struct _DLiteInstance *
                           bool check_storages)
 {
   struct _DLiteInstance *inst=NULL;
+  if (!id) return dlite_err(dliteValueError, "no instance id is given"), NULL;
   if (check_storages) {
     inst = dlite_instance_get_casted(id, metaid);
   } else if ((inst = dlite_instance_has(id, check_storages))) {
@@ -78,7 +90,7 @@ struct _DLiteInstance *
 /* Returns true if instance is recognised. */
 bool dlite_swig_has_instance(const char *id, bool check_storages)
 {
-  return (dlite_instance_has(id, check_storages)) ? 1 : 0;
+  return (id && dlite_instance_has(id, check_storages)) ? 1 : 0;
 }
 
 /* Returns list of uuids from istore. */
@@ -114,9 +126,18 @@ struct _DLiteDimension {
 
 %extend _DLiteDimension {
   _DLiteDimension(const char *name, const char *description=NULL) {
-    DLiteDimension *d = calloc(1, sizeof(DLiteDimension));
-    d->name = strdup(name);
-    if (description) d->description = strdup(description);
+    DLiteDimension *d;
+    if (!name)
+      return dlite_err(dliteValueError, "dimension must have a name"), NULL;
+    if (!(d = calloc(1, sizeof(DLiteDimension))) ||
+        !(d->name = strdup(name)) ||
+        (description && !(d->description = strdup(description)))) {
+      if (d) {
+        dlite_type_clear(d, dliteDimension, sizeof(DLiteDimension));
+        free(d);
+      }
+      return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+    }
     return d;
   }
 
@@ -166,6 +187,8 @@ struct _DLiteProperty {
                  const char *description=NULL) {
     DLiteType dtype;
     size_t size;
+    if (!type)
+      return dlite_err(dliteValueError, "property must have a type"), NULL;
     if (dlite_type_set_dtype_and_size(type, &dtype, &size)) return NULL;
     return dlite_swig_create_property(name, dtype, size, ref, shape, unit,
                                       description);
@@ -296,7 +319,7 @@ Arguments:
   (struct _DLiteDimension *dimensions, int ndimensions)};
 %apply(struct _DLiteProperty *properties, int nproperties) {
   (struct _DLiteProperty *properties, int nproperties)};
-%apply(unsigned char *INPUT_BYTES) {(unsigned char *bsoninput)};
+%apply unsigned char *INPUT_BSON {const unsigned char *bsoninput};
 
 %rename(Instance) _DLiteInstance;
 struct _DLiteInstance {
@@ -320,7 +343,8 @@ struct _DLiteInstance {
                  struct _DLiteDimension *dimensions=NULL, int ndimensions=0,
                  struct _DLiteProperty *properties=NULL, int nproperties=0,
                  const char *description=NULL) {
-    if (dims && metaid) {
+    if (dims && metaid && !url && !storage && !driver && !jsoninput &&
+        !bsoninput) {
       DLiteInstance *inst;
       DLiteMeta *meta;
       size_t i, *d, n=ndims;
@@ -335,8 +359,20 @@ struct _DLiteInstance {
                          metaid, (unsigned)meta->_ndimensions,
                          (unsigned)n), NULL;
       }
-      d = malloc(n * sizeof(size_t));
-      for (i=0; i<n; i++) d[i] = dims[i];
+      if (!(d = malloc((n) ? n * sizeof(size_t) : 1))) {
+        dlite_meta_decref(meta);
+        return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+      }
+      for (i=0; i<n; i++) {
+        if (dims[i] < 0) {
+          dlite_err(dliteValueError, "negative size of dimension %d: %d",
+                    (int)i, dims[i]);
+          dlite_meta_decref(meta);
+          free(d);
+          return NULL;
+        }
+        d[i] = dims[i];
+      }
       inst = dlite_instance_create(meta, d, id);
       free(d);
       if (inst) dlite_errclr();
@@ -382,7 +418,7 @@ struct _DLiteInstance {
     } else {
       dlite_err(1, "invalid arguments to Instance()");
     }
-    abort();  // should never be reached
+    return NULL;
   }
 
   ~_DLiteInstance() {
@@ -439,7 +475,10 @@ Call signatures:
     }
   }
   void save_to_url(const char *url) {
-    dlite_instance_save_url(url, $self);
+    if (!url)
+      dlite_err(dliteValueError, "no url to save to");
+    else
+      dlite_instance_save_url(url, $self);
   }
   void save_to_storage(struct _DLiteStorage *storage) {
     dlite_instance_save(storage, $self);
@@ -461,8 +500,10 @@ Call signatures:
       dlite_err(dliteMemoryError, "allocation failure");
       return;
     }
-    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0)
+    if ((m = dlite_instance_memsave(driver, buf, n+1, $self, options)) < 0) {
+      free(buf);
       return;
+    }
     assert (m == n);
     *ARGOUT_BYTES = buf;
     *LEN = n;
@@ -502,10 +543,11 @@ Call signatures:
            "Raises a DLiteVerifyError exception if the hash is not valid."
            ) verify_hash;
   void verify_hash(const char *hash=NULL, bool recursive=false) {
+    uint8_t data[DLITE_HASH_SIZE];
     uint8_t *hashp = NULL;
     if (hash) {
-      uint8_t data[DLITE_HASH_SIZE];
-      if (strhex_decode(data, sizeof(data), hash, (int)strlen(hash)) < 0) {
+      if (strhex_decode(data, sizeof(data), hash, (int)strlen(hash)) !=
+          DLITE_HASH_SIZE) {
         dlite_err(1, "cannot decode hash: %s\n", hash);
         return;
       }
@@ -552,7 +594,7 @@ Call signatures:
            "This function may pull snapshots back into memory. Use\n"
            "`dlite_instance_pull()` if you know the storage where the snapshots "
            "are stored.") get_snapshot;
-  %newobject get_snapshop;
+  %newobject get_snapshot;
   struct _DLiteInstance *get_snapshot(int n=1) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_get_snapshot($self, n);
@@ -568,7 +610,7 @@ Call signatures:
            "counts backward.  Hence, `n=0` returns the current instance,\n"
            "`n=1` returns its parent, etc... "
            ) pull_snapshot;
-  %newobject get_snapshop;
+  %newobject pull_snapshot;
   struct _DLiteInstance *pull_snapshot(struct _DLiteStorage *storage, int n) {
     DLiteInstance *inst =
       (DLiteInstance *)dlite_instance_pull_snapshot($self, storage, n);
@@ -701,7 +743,10 @@ Returns:
            "  4  strip initial and final spaces")
      set_property_from_string;
   void set_property_from_string(const char *name, const char *s, int flags=0) {
-    dlite_instance_scan_property(s, $self, name, flags);
+    if (s)
+      dlite_instance_scan_property(s, $self, name, flags);
+    else
+      dlite_err(dliteValueError, "cannot set property from None");
   }
 
   %feature("docstring", "Returns true if this instance has a property with "
-- 
2.43.0


From 0edf7dea5b4e2822a61aaa7484e331dbe99ca47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 092/100] fix: no leak or null pointer dereference in
 to_typename()

---
 bindings/python/dlite-type.i | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bindings/python/dlite-type.i b/bindings/python/dlite-type.i
index 3d62ade..0694565 100644
--- a/bindings/python/dlite-type.i
+++ b/bindings/python/dlite-type.i
@@ -12,11 +12,17 @@
 
   char *to_typename(int type, int size) {
     char *s;
-    if (!(s = malloc(16))) return NULL;
+    const char *name;
     if (size < 0) {
-      //s = strdup(dlite_type_get_enum_name(type));
-      s = strdup(dlite_type_get_dtypename(type));
-    } else if (dlite_type_set_typename(type, size, s, 16)) {
+      if (!(name = dlite_type_get_dtypename(type)))
+        return dlite_err(dliteTypeError, "invalid type number: %d", type),NULL;
+      if (!(s = strdup(name)))
+        return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+      return s;
+    }
+    if (!(s = malloc(16)))
+      return dlite_err(dliteMemoryError, "allocation failure"), NULL;
+    if (dlite_type_set_typename(type, size, s, 16)) {
       free(s);
       return NULL;
     }
-- 
2.43.0


From c6a5999856ccec626d050aa268fa4fa386799a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:39 +0000
Subject: [PATCH 093/100] fix: raise an exception when None is passed where it
 has no meaning

---
 bindings/python/dlite-collection.i |  2 ++
 bindings/python/dlite-mapping.i    |  2 ++
 bindings/python/dlite-misc.i       | 12 ++++++++++++
 bindings/python/dlite.i            | 29 +++++++++++++++++++++++++++++
 4 files changed, 45 insertions(+)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 8ae0be8..78d9546 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -62,6 +62,7 @@ struct _DLiteInstance *
 dlite_collection_get_new(const struct _DLiteCollection *coll,
                          const char *label, const char *metaid);
 
+%apply const char *NONNULL { const char *id };
 %newobject dlite_collection_get_id;
 const struct _DLiteInstance *
   dlite_collection_get_id(const struct _DLiteCollection *coll, const char *id);
@@ -70,6 +71,7 @@ int dlite_collection_has(const struct _DLiteCollection *coll,
                          const char *label);
 int dlite_collection_has_id(const struct _DLiteCollection *coll,
                             const char *id);
+%clear const char *id;
 int dlite_collection_count(struct _DLiteCollection *coll);
 
 
diff --git a/bindings/python/dlite-mapping.i b/bindings/python/dlite-mapping.i
index bba5638..1e068bb 100644
--- a/bindings/python/dlite-mapping.i
+++ b/bindings/python/dlite-mapping.i
@@ -48,4 +48,6 @@ void dlite_python_mapping_unload(void);
   Unloads mapping plugin with given name.  If `name` is None, all mapping
   plugins are unloaded.
 ") dlite_python_mapping_unload;
+%clear const char *name;
 int dlite_mapping_plugin_unload(const char *name=NULL);
+%apply const char *NONNULL { const char *name };
diff --git a/bindings/python/dlite-misc.i b/bindings/python/dlite-misc.i
index ac1a688..a3fe3ff 100644
--- a/bindings/python/dlite-misc.i
+++ b/bindings/python/dlite-misc.i
@@ -30,6 +30,10 @@
 
   void split_meta_uri(const char *uri, char **name, char **version,
                       char **namespace) {
+    if (!uri) {
+      dlite_err(dliteValueError, "argument to split_meta_uri() is None");
+      return;
+    }
     dlite_split_meta_uri(uri, name, version, namespace);
   }
 
@@ -37,6 +41,10 @@
                            char **options, char **fragment) {
 
     char *url2, *drv=NULL, *loc=NULL, *opt=NULL, *frg=NULL;
+    if (!url) {
+      dlite_err(dliteValueError, "argument to split_url() is None");
+      return;
+    }
     if ((url2 = strdup(url)))
       dlite_split_url(url2, &drv, &loc, &opt, &frg);
     else
@@ -159,8 +167,10 @@ Returns an url constructed from the arguments of the form:
 The `driver`, `options` and `fragment` arguments may be None.
 ") dlite_join_url;
 %newobject dlite_join_url;
+%apply const char *NONNULL { const char *location };
 char *dlite_join_url(const char *driver, const char *location,
                      const char *options=NULL, const char *fragment=NULL);
+%clear const char *location;
 
 %feature("docstring", "\
 Returns a (driver, location, options, fragment)-tuplet by splitting
@@ -191,7 +201,9 @@ Understands the following patterns:
 - `[^a-z]`: Any single character not in the range a-z.
 - `\\x`: Match x.
 ") globmatch;
+%apply const char *NONNULL { const char *pattern, const char *s };
 int globmatch(const char *pattern, const char *s);
+%clear const char *pattern, const char *s;
 
 
 %feature("docstring", "\
diff --git a/bindings/python/dlite.i b/bindings/python/dlite.i
index d679c6b..5974def 100644
--- a/bindings/python/dlite.i
+++ b/bindings/python/dlite.i
@@ -57,6 +57,35 @@
 #endif
 
 
+/**********************************************
+ ** Arguments that must not be None
+ **********************************************/
+%typemap(check) const char *NONNULL, char *NONNULL,
+  struct _DLiteInstance *NONNULL, const struct _DLiteInstance *NONNULL,
+  struct _DLiteCollection *NONNULL, const struct _DLiteCollection *NONNULL
+{
+  if (!$1) {
+    SWIG_exception(SWIG_ValueError, "argument $argnum of $symname is None");
+  }
+}
+%apply const char *NONNULL {
+  const char *name, const char *label, const char *version,
+  const char *v1, const char *v2, const char *str, const char *namespace,
+  const char *typename, const char *dtypename, const char *pathtype,
+  const char *output_uri
+};
+%apply struct _DLiteInstance *NONNULL {
+  struct _DLiteInstance *inst, struct _DLiteInstance *parent
+};
+%apply const struct _DLiteInstance *NONNULL {
+  const struct _DLiteInstance *inst
+};
+%apply struct _DLiteCollection *NONNULL { struct _DLiteCollection *coll };
+%apply const struct _DLiteCollection *NONNULL {
+  const struct _DLiteCollection *coll
+};
+
+
 /**********************************************
  ** Error handling
  **********************************************/
-- 
2.43.0


From 1b40cc2e6f655ad0b8aaf8fda2c71905df7b463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 094/100] fix: arrays read from a frozen instance are read-only
 however they are obtained

---
 bindings/python/dlite-python.i | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 858bd44..342e6e9 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -377,7 +377,8 @@ obj_t *dlite_swig_get_array(DLiteInstance *inst, int ndims, int *shape,
   default:
     { /* All other types */
       PyArray_Descr *dtype = npy_dtype(type, size);
-      int flags = NPY_ARRAY_CARRAY;
+      int flags = (inst && dlite_instance_is_frozen(inst)) ?
+        NPY_ARRAY_CARRAY_RO : NPY_ARRAY_CARRAY;
       if (inst) flags |= NPY_ARRAY_OWNDATA;
       if (!(obj = PyArray_NewFromDescr(&PyArray_Type, dtype, ndims, d,
                                        NULL, data, flags, NULL)))
-- 
2.43.0


From defd183eca9ee9a8d86ed254a3aebc683a7bd738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 095/100] fix: accept numpy integers for unsigned integer
 properties

---
 bindings/python/dlite-python.i | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 342e6e9..b3b47cd 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -825,10 +825,18 @@ int dlite_swig_set_scalar(void *ptr, DLiteType type, size_t size, obj_t *obj)
   case dliteUInt:
     {
 #ifdef HAVE_LONG_LONG
-      unsigned long long value = PyLong_AsUnsignedLongLong(obj);
+      unsigned long long value;
 #else
-      unsigned long value = PyLong_AsUnsignedLong(obj);
+      unsigned long value;
+#endif
+      PyObject *index = PyNumber_Index(obj);  // accept also numpy integers
+      if (!index) FAIL("cannot convert to unsigned int");
+#ifdef HAVE_LONG_LONG
+      value = PyLong_AsUnsignedLongLong(index);
+#else
+      value = PyLong_AsUnsignedLong(index);
 #endif
+      Py_DECREF(index);
       if (PyErr_Occurred()) FAIL("cannot convert to unsigned int");
       if (size < sizeof(value) && (value >> (8*size)) != 0)
         FAIL1("overflow when converting to uint%d", (int)(8*size));
-- 
2.43.0


From c7c06780bba7ad0e4cef5fe6f4c65cc29faa8719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:27 +0000
Subject: [PATCH 096/100] fix: report failure to update an instance when its
 properties are read

---
 bindings/python/dlite-entity.i | 2 +-
 bindings/python/dlite-python.i | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index a193809..6fc67df 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -667,7 +667,7 @@ Call signatures:
   %newobject get_dimensions;
   obj_t *get_dimensions() {
     int dims[1] = { (int)DLITE_NDIM($self) };
-    dlite_instance_sync_to_dimension_sizes($self);
+    if (dlite_instance_sync_to_dimension_sizes($self)) return NULL;
     return dlite_swig_get_array($self, 1, dims, dliteUInt, sizeof(size_t),
                                 DLITE_DIMS($self));
   }
diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index b3b47cd..239a964 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1145,7 +1145,7 @@ obj_t *dlite_swig_get_property_by_index(DLiteInstance *inst, int i)
   if (n < 0 || n >= (int)inst->meta->_nproperties)
     return dlite_err(-1, "Property index %d is out or range: %s",
                      i, inst->meta->uri), NULL;
-  dlite_instance_sync_to_properties(inst);
+  if (dlite_instance_sync_to_properties(inst)) return NULL;
   ptr = DLITE_PROP(inst, n);
   p = inst->meta->_properties + n;
   if (p->ndims == 0) {
-- 
2.43.0


From 15678806ecfd0f65812f4faf81a9797786bd49bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:06 +0000
Subject: [PATCH 097/100] fix: an instance that is frozen cannot be changed
 with set_property()

---
 bindings/python/dlite-python.i | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python/dlite-python.i b/bindings/python/dlite-python.i
index 239a964..eecf3f9 100644
--- a/bindings/python/dlite-python.i
+++ b/bindings/python/dlite-python.i
@@ -1178,6 +1178,11 @@ int dlite_swig_set_property_by_index(DLiteInstance *inst, int i, obj_t *obj)
   if (n < 0) n += (int)inst->meta->_nproperties;
   if (n < 0 || n >= (int)inst->meta->_nproperties)
     FAIL2("Property index %d is out or range: %s", i, inst->meta->uri);
+  if (dlite_instance_is_frozen(inst)) {
+    dlite_err(dliteUnsupportedError, "cannot set property '%s' of a frozen "
+              "instance", inst->meta->_properties[n].name);
+    goto fail;
+  }
   ptr = DLITE_PROP(inst, n);
   p = inst->meta->_properties + n;
 
-- 
2.43.0


From 2b4922f109ae00719e278f0db777e99bef612436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:41 +0000
Subject: [PATCH 098/100] fix: report allocation failure in Collection.value()
 and release its result

---
 bindings/python/dlite-collection.i | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bindings/python/dlite-collection.i b/bindings/python/dlite-collection.i
index 78d9546..7e3d9c8 100644
--- a/bindings/python/dlite-collection.i
+++ b/bindings/python/dlite-collection.i
@@ -29,7 +29,10 @@ char *_collection_value(DLiteInstance *inst,
                      "first argument must be a collection"), NULL;
   DLiteCollection *coll = (DLiteCollection *)inst;
   const char *v = triplestore_value(coll->rstore, s, p, o, d, fallback, any);
-  return (v) ? strdup(v) : NULL;
+  char *copy = NULL;
+  if (v && !(copy = strdup(v)))
+    dlite_err(dliteMemoryError, "allocation failure");
+  return copy;
  }
 
 %}
@@ -213,7 +216,7 @@ struct _DLiteCollection {
 struct _DLiteCollection *_get_collection(const char *id);
 
 %feature("docstring", "Return the value for a pair of two criteria.") _value;
-%newobject _value;
+%newobject _collection_value;
 char *_collection_value(struct _DLiteInstance *inst,
                         const char *s=NULL, const char *p=NULL,
                         const char *o=NULL, const char *d=NULL,
-- 
2.43.0


From 791236fb8dced2fd89a6f4dcd56db9269982fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:41 +0000
Subject: [PATCH 099/100] fix: release instances got from bytes, a JSON store
 or by iterating over a storage

---
 bindings/python/dlite-entity.i  | 1 +
 bindings/python/dlite-jstore.i  | 2 +-
 bindings/python/dlite-storage.i | 5 +----
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/bindings/python/dlite-entity.i b/bindings/python/dlite-entity.i
index 6fc67df..71cfddf 100644
--- a/bindings/python/dlite-entity.i
+++ b/bindings/python/dlite-entity.i
@@ -910,6 +910,7 @@ bool dlite_instance_has_property(struct _DLiteInstance *inst, const char *name);
 
 %rename(_from_bytes) dlite_instance_memload;
 %feature("docstring", "Loads instance from string.") dlite_instance_memload;
+%newobject dlite_instance_memload;
 struct _DLiteInstance *
          dlite_instance_memload(const char *driver,
                                 unsigned char *INPUT_BYTES, size_t LEN,
diff --git a/bindings/python/dlite-jstore.i b/bindings/python/dlite-jstore.i
index 43bf05e..7b775cd 100644
--- a/bindings/python/dlite-jstore.i
+++ b/bindings/python/dlite-jstore.i
@@ -76,7 +76,7 @@ struct _JStore {};
            "Return instance with given `id` from store. "
            "If `id` is None and there is exactly one instance in the store, "
            "return the instance.  Otherwise raise an DLiteLookupError.") get;
-  %newobject get;
+  %newobject _get;
   struct _DLiteInstance *_get(const char *id=NULL) {
     if (!id && !(id = _single_id($self))) return NULL;
     return dlite_jstore_get($self, id);
diff --git a/bindings/python/dlite-storage.i b/bindings/python/dlite-storage.i
index b6293d7..3c0e17f 100644
--- a/bindings/python/dlite-storage.i
+++ b/bindings/python/dlite-storage.i
@@ -51,10 +51,7 @@ Returns next instance or None if exhausted.") next;
   struct _DLiteInstance *next(void) {
     char uuid[DLITE_UUID_LENGTH+1];
     if (dlite_storage_iter_next($self->s, $self->state, uuid) == 0) {
-      DLiteInstance *inst = dlite_instance_load($self->s, uuid);
-      // Why isn't the refcount already increased?
-      if (inst) dlite_instance_incref(inst);
-      return inst;
+      return dlite_instance_load($self->s, uuid);
     }
     return NULL;
   }
-- 
2.43.0


From b1c866645d99da025f97ff833d91dfbe1ba5da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:41 +0000
Subject: [PATCH 100/100] fix: close a storage that has been iterated over from
 Python

---
 bindings/python/dlite-storage-python.i | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/bindings/python/dlite-storage-python.i b/bindings/python/dlite-storage-python.i
index 2acd8ac..0c36cca 100644
--- a/bindings/python/dlite-storage-python.i
+++ b/bindings/python/dlite-storage-python.i
@@ -89,17 +89,12 @@
           _dlite.StorageIterator_swiginit(
               self, _dlite.new_StorageIterator(s, pattern))
 
-          # Keep a reference to self, such that it is not garbage-collected
-          # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.state)] = self
+      def __iter__(self):
+          return self
 
       def __next__(self):
           inst = self.next()
           if not inst:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
               raise StopIteration()
           return instance_cast(inst)
   %}
@@ -112,17 +107,13 @@
           """Iterator over loaded storage plugins."""
           _dlite.StoragePluginIter_swiginit(
               self, _dlite.new_StoragePluginIter())
-          # Keep a reference to self, such that it is not garbage-collected
-          # before end of iterations
-          if not hasattr(_dlite, "_storage_iters"):
-              _dlite._storage_iters = {}
-          _dlite._storage_iters[id(self.iter)] = self
+
+      def __iter__(self):
+          return self
 
       def __next__(self):
           name = self.next()
           if not name:
-              # Delete reference to iterator object stored away in __init__()
-              _dlite._storage_iters.pop(id(self.this), None)
               raise StopIteration()
           return name
   %}
-- 
2.43.0

