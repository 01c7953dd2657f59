From 05fe980bedb2a7b8f9d90b50a6695392a98d182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 01/29] fix: size the filter output for every possible
 replacement

The safe, iso8859_1 and utf_8 filters sized their output from the longest row
of the table alone.  The default translation, the replacement for an encoded
NULL, and characters left alone by a table without rows (or with only empty
rows) could all be longer than that, and overflowed the output buffer.  With
the builtin unicode table, a filename of 0xC0 0x80 was enough.
---
 src/clean_string.c |  4 ++--
 src/clean_utf_8.c  |  8 +++++++-
 src/table.c        | 24 ++++++++++++++++++++++++
 src/table.h        |  1 +
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..0493361 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -40,7 +40,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_translation(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +100,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_translation(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..a3f2464 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -61,6 +61,7 @@ char *clean_utf_8(char *filename, table_t *table)
 {
     char *output, *input_walk, *output_walk, *replace_walk;
     unsigned int new_value;
+    size_t max_translation;
     int expected_chars;
     int characters_eaten;
     int utf_8_width;
@@ -75,7 +76,12 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    max_translation = table_max_translation(table);
+    if (max_translation < strlen(null_replacement)) {
+        max_translation = strlen(null_replacement);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_translation) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/table.c b/src/table.c
index fefeac5..d10100e 100644
--- a/src/table.c
+++ b/src/table.c
@@ -219,3 +219,27 @@ char *table_get(table_t *table, unsigned int key)
 
     return table->rows[offset].data;
 }
+
+/**
+ * Works out the largest number of bytes that a single character of input can
+ * turn into, whether it's translated by a row of the table, by the default
+ * translation, or left alone.
+ *
+ * @param table The table to use.
+ *
+ * @return The number of bytes, at least 1.
+ */
+size_t table_max_translation(const table_t *table)
+{
+    size_t ret = 1;
+
+    if (table->max_data_length > 0 && (size_t) table->max_data_length > ret) {
+        ret = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > ret) {
+        ret = strlen(table->default_translation);
+    }
+
+    return ret;
+}
diff --git a/src/table.h b/src/table.h
index d2999ae..73deeed 100644
--- a/src/table.h
+++ b/src/table.h
@@ -19,5 +19,6 @@ extern table_t *table_resize(table_t *table, int rows, int use_hash);
 extern void table_free(table_t *table);
 extern int table_put(table_t *table, unsigned int key, char *data);
 extern char *table_get(table_t *table, unsigned int key);
+extern size_t table_max_translation(const table_t *table);
 
 #endif /* __TABLE_H */
-- 
2.43.0


From 6bf4da2c010e7dbe9d75094d4b1660f3a3eb4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 02/29] fix: do not read before the start of the line buffer in
 inline mode

A line that starts with a NUL, or an unterminated line made of nothing but
UTF-8 continuation bytes, walked off the front of the buffer.
---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index 00a03cc..0a86705 100644
--- a/src/file.c
+++ b/src/file.c
@@ -291,7 +291,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             //
 
             hold = seek = strchr(base, '\0');
-            seek--;
+            if (seek > base) {
+                seek--;
+            }
 
 #ifdef DEBUG
             if (is_utf_8_cont(*seek)) {
@@ -299,7 +301,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             }
 #endif
 
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
+            while (seek > base && is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
 #ifdef DEBUG
                 fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
 #endif
-- 
2.43.0


From ab18b27695b7b72377272663c6521b8a276ccfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 03/29] fix: check every entry of the ignore list for every
 file

After a file was ignored, the search for the next file picked up after the
entry that had matched, instead of at the start of the list.  Files that should
have been ignored were renamed, depending on the order they were found in.
---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 0a86705..a086e3d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -38,6 +38,9 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    /* the last search stopped at the entry that matched */
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From 6891e9eea37da80b4d9460f7ccf91f8b82022f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 04/29] fix: read a directory in full before renaming the files
 in it

readdir() may return a file that was renamed a second time, under its new name,
and does so on ext4 in directories too big for a single read.  Such a file was
run through the sequence again, so that, for instance, iso8859_1 transcoded
names twice, and uncgi decoded them twice.

Also, skip an entry that can't be examined, instead of relying on what was
found out about the previous one.
---
 src/file.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/file.c b/src/file.c
index a086e3d..0c2a192 100644
--- a/src/file.c
+++ b/src/file.c
@@ -172,7 +172,8 @@ void parse_dir(char *filename, options_t *options)
     DIR *dir_handle;
     struct dirent *dir_entry;
     struct stat stat_info;
-    int check_file;
+    filelist_t *entries;
+    char *entry;
     int err;
     size_t new_file_length;
 
@@ -205,19 +206,28 @@ void parse_dir(char *filename, options_t *options)
         return;
     }
 
-    dir_entry = readdir(dir_handle);
+    /*
+     * Read the whole directory before renaming anything, because readdir() is
+     * allowed to return a renamed file a second time, under its new name.
+     */
+    entries = filelist_init();
 
-    while (dir_entry != NULL) {
+    while ((dir_entry = readdir(dir_handle)) != NULL) {
 
         /*
          * Check for files that need to be ignored
          */
-        check_file = !ignore_file(dir_entry->d_name, options);
+        if (!ignore_file(dir_entry->d_name, options)) {
+            filelist_put(entries, dir_entry->d_name);
+        }
+    }
+    closedir(dir_handle);
 
-        if (check_file) {
-            snprintf(new_file, new_file_length, "%s/%s", filename, dir_entry->d_name);
+    while ((entry = filelist_get(entries))) {
+        snprintf(new_file, new_file_length, "%s/%s", filename, entry);
 
-            lstat(new_file, &stat_info);
+        err = lstat(new_file, &stat_info);
+        if (err != -1) {
             if (S_ISDIR(stat_info.st_mode)) {
                 work = parse_file(new_file, options);
                 if (options->recurse) {
@@ -229,9 +239,10 @@ void parse_dir(char *filename, options_t *options)
                 free(work);
             }
         }
-        dir_entry = readdir(dir_handle);
     }
-    closedir(dir_handle);
+
+    filelist_free(entries);
+    free(new_file);
 }
 
 /**
-- 
2.43.0


From f77b68f2275a1b7bcafc920a589e7579021b938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 05/29] fix: never move a file to another directory

A sequence that doesn't end with the safe filter can produce a slash, e.g.
uncgi-only, given "..%2Ffile".  The file was moved to wherever the result
pointed.  Report it, and leave the file alone.  Do the same if there is nothing
left of the filename, which is doomed to fail, but was listed in a dry run.
---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index 0c2a192..ee9b352 100644
--- a/src/file.c
+++ b/src/file.c
@@ -116,6 +116,13 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    /* the new filename has to be one, and not a path to another directory */
+    if (*work == '\0' || strchr(work, '/') != NULL) {
+        fprintf(stderr, "Cannot rename %s to %s: not a valid filename\n", old_filename, work);
+        free(work);
+        return old_filename;
+    }
+
     len = (old_filename_ptr - old_filename);
     new_filename = wrapped_malloc(len + strlen(work) + 1);
 
-- 
2.43.0


From ad18f7e3d3771f28fd676acc5d7c03e02f2974ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 06/29] fix: never replace a file that appears just before the
 rename

Between the check for an existing file and the rename, another process, such as
a second copy of detox, could create the new filename, and the rename replaced
it.  The same happened if the check itself failed.  Ask the system not to
replace anything, where that is supported.
---
 src/file.c | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index ee9b352..736d064 100644
--- a/src/file.c
+++ b/src/file.c
@@ -9,7 +9,12 @@
 
 #include "config.h"
 
+#ifndef _GNU_SOURCE
+#define _GNU_SOURCE
+#endif
+
 #include <sys/stat.h>
+#include <fcntl.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <dirent.h>
@@ -66,6 +71,29 @@ static int is_protected(const char *filename)
     return (filename[0] == '.' && (filename[1] == '\0' || (filename[1] == '.' && filename[2] == '\0')));
 }
 
+/**
+ * Renames a file to a filename that isn't taken, and makes sure that it still
+ * isn't taken at that point, if the system provides the means to.
+ *
+ * @param old_filename The current filename
+ * @param new_filename The new filename
+ *
+ * @return 0, or -1 if an error occurred
+ */
+static int rename_to_free(const char *old_filename, const char *new_filename)
+{
+#ifdef RENAME_NOREPLACE
+    int err;
+
+    err = renameat2(AT_FDCWD, old_filename, AT_FDCWD, new_filename, RENAME_NOREPLACE);
+    if (err != -1 || (errno != EINVAL && errno != ENOSYS)) {
+        return err;
+    }
+#endif
+
+    return rename(old_filename, new_filename);
+}
+
 /*
  * Renames file to a safe filename.
  */
@@ -77,6 +105,7 @@ char *parse_file(char *filename, options_t *options)
     struct stat stat_info_old;
     struct stat stat_info_new;
     int err;
+    int exists;
     size_t len;
 
     len = strlen(filename) + 1;
@@ -138,7 +167,8 @@ char *parse_file(char *filename, options_t *options)
     }
 
     err = lstat(new_filename, &stat_info_new);
-    if (err != -1) { // New file exists
+    exists = (err != -1);
+    if (exists) { // New file exists
         if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
                 stat_info_old.st_ino != stat_info_new.st_ino || // Different inode
                 stat_info_old.st_nlink > 1) { // More than one hard link
@@ -158,7 +188,11 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
-    err = rename(old_filename, new_filename);
+    if (exists) { // Under another case
+        err = rename(old_filename, new_filename);
+    } else {
+        err = rename_to_free(old_filename, new_filename);
+    }
     if (err == -1) {
         fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
         free(new_filename);
-- 
2.43.0


From ecfef4d93bd627e310ad003ee3e185ef50e09b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 07/29] fix: make room for every row of a translation table

Replacing a row counted as using up another one, and a table that was full
refused to replace a row.  The size of a table was guessed from the size of its
file at 6 bytes per row, but a row may be shorter than that, e.g. "10 a".
Either way, tables were rejected with "Failed to add row".
---
 src/check_table.c | 2 +-
 src/parse_table.c | 2 +-
 src/table.c       | 7 ++-----
 3 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index d837081..696a8cc 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -24,7 +24,7 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+#define LINE_LENGTH 4
 
 enum {
     BASE_STATE,
diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..6586272 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -17,7 +17,7 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+#define LINE_LENGTH 4
 
 enum {
     BASE_STATE,
diff --git a/src/table.c b/src/table.c
index d10100e..6df909b 100644
--- a/src/table.c
+++ b/src/table.c
@@ -123,10 +123,6 @@ int table_put(table_t *table, unsigned int key, char *data)
         return -1;
     }
 
-    if (table->length == table->used) {
-        return -1;
-    }
-
     offset = -1;
 
     if (table->use_hash) {
@@ -152,11 +148,12 @@ int table_put(table_t *table, unsigned int key, char *data)
 
     if (table->rows[offset].key == key) {
         table->overwrites++;
+    } else {
+        table->used++;
     }
 
     table->rows[offset].key = key;
     table->rows[offset].data = wrapped_strdup(data);
-    table->used++;
 
     if (table->max_key < key) {
         table->max_key = key;
-- 
2.43.0


From d1442c327196fca906f11ae5f066dfe9275180dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 08/29] fix: treat a quoted, empty default as an empty default

In a translation table, the line: default ""
set the default translation to the word "default".
---
 src/parse_table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse_table.c b/src/parse_table.c
index 6586272..8b24b14 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -133,6 +133,8 @@ table_t *parse_table(char *filename)
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -141,6 +143,11 @@ table_t *parse_table(char *filename)
                     sscanf(work + offset, "%s", parsed);
                 }
 
+                if (parsed[0] == '\0') {
+                    table->default_translation = NULL;
+                    continue;
+                }
+
                 table->default_translation = wrapped_strdup(parsed);
 
                 continue;
-- 
2.43.0


From 44e0fa364de4913f528adb461e0b6f69e6547a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 09/29] fix: only lowercase ASCII characters in the lower
 filter

The locale takes effect as soon as a translation table is read from a file, and
in a locale with an 8-bit character set, isupper() recognizes characters other
than ASCII.  The bytes of UTF-8 encoded characters were changed, one by one.
---
 src/clean_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 0493361..6eebee4 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -329,8 +329,8 @@ char *clean_lower(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (isupper((int) *input_walk)) {
-            *output_walk++ = tolower((int) *input_walk++);
+        if (*input_walk >= 'A' && *input_walk <= 'Z') {
+            *output_walk++ = *input_walk++ - 'A' + 'a';
         } else {
             *output_walk++ = *input_walk++;
         }
-- 
2.43.0


From aa79a0427ec10da4385b9e0f75b413fb99e7260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:34 +0000
Subject: [PATCH 10/29] fix: do not cut off a filename at %00 in the uncgi
 filter

%00 was decoded to the end of the string, and the rest of the filename was
lost.
---
 src/clean_string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 6eebee4..a283637 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -134,7 +134,7 @@ char *clean_safe(char *filename, table_t *table)
 
 /**
  * Cleans up any CGI encoded characters, in the form "%" followed by 2 hex
- * digits.
+ * digits.  %00 is left alone, because a filename can't contain it.
  *
  * @param filename The filename to clean.
  *
@@ -155,7 +155,8 @@ char *clean_uncgi(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (input_walk[0] == '%' && isxdigit((int) input_walk[1]) && isxdigit((int) input_walk[2])) {
+        if (input_walk[0] == '%' && isxdigit((unsigned char) input_walk[1]) && isxdigit((unsigned char) input_walk[2])
+                && (input_walk[1] != '0' || input_walk[2] != '0')) {
             conv[0] = input_walk[1];
             conv[1] = input_walk[2];
             conv[2] = 0;
-- 
2.43.0


From b5c2cc537f402c2ba5b5c9bf01ee16d70f1262ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:28 +0000
Subject: [PATCH 11/29] fix: report running out of memory while reading a
 config file

The lexer did not check strdup(), and crashed.
---
 src/config_file_lex.c | 61 ++++++++++++++++++++++---------------------
 src/config_file_lex.l |  5 ++--
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index b3f4c70..07ac578 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -556,11 +556,12 @@ char *yytext;
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
-#line 563 "config_file_lex.c"
 #line 564 "config_file_lex.c"
+#line 565 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -777,10 +778,10 @@ YY_DECL
 		}
 
 	{
-#line 20 "config_file_lex.l"
+#line 21 "config_file_lex.l"
 
 
-#line 784 "config_file_lex.c"
+#line 785 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -839,101 +840,101 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 22 "config_file_lex.l"
+#line 23 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 24 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 26 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 28 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 30 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 30 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 32 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 42 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 44 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 45 "config_file_lex.l"
+#line 46 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -945,15 +946,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 56 "config_file_lex.l"
+#line 57 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 61 "config_file_lex.l"
+#line 62 "config_file_lex.l"
 {
     yylval.nvalue = atoi(yytext);
     return NVALUE;
@@ -961,15 +962,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 66 "config_file_lex.l"
+#line 67 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 ECHO;
 	YY_BREAK
-#line 973 "config_file_lex.c"
+#line 974 "config_file_lex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1974,6 +1975,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index f38ed29..2dc6a9e 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -10,6 +10,7 @@
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
@@ -43,7 +44,7 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -54,7 +55,7 @@ wipeup             { return WIPEUP; }
 }
 
 [a-zA-Z][a-zA-Z0-9_]* {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 
-- 
2.43.0


From d00bf7c38a657eaf89b3a5ea4352169a13e9d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:16 +0000
Subject: [PATCH 12/29] fix: do not rename when it is unclear whether the new
 name is taken

An lstat() that failed for any reason was taken to mean that the file
does not exist.  On a filesystem without RENAME_NOREPLACE, the rename
then replaced it.
---
 src/file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file.c b/src/file.c
index 736d064..36a3839 100644
--- a/src/file.c
+++ b/src/file.c
@@ -168,6 +168,11 @@ char *parse_file(char *filename, options_t *options)
 
     err = lstat(new_filename, &stat_info_new);
     exists = (err != -1);
+    if (!exists && errno != ENOENT) { // It might exist
+        fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
+        free(new_filename);
+        return old_filename;
+    }
     if (exists) { // New file exists
         if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
                 stat_info_old.st_ino != stat_info_new.st_ino || // Different inode
-- 
2.43.0


From 6521128b031a13c5f5c4cc57e79289d22619916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:05 +0000
Subject: [PATCH 13/29] fix: write the characters of the shipped iso8859_1 and
 cp1252 tables in UTF-8

Table files have no escape sequences: a filter that loads one of these
files replaced a byte by the six characters of "\u00C3" and the like,
unlike the builtin tables.
---
 table/cp1252.tbl    |  54 ++++++-------
 table/iso8859_1.tbl | 188 ++++++++++++++++++++++----------------------
 2 files changed, 121 insertions(+), 121 deletions(-)

diff --git a/table/cp1252.tbl b/table/cp1252.tbl
index ef3da8d..b0c214c 100644
--- a/table/cp1252.tbl
+++ b/table/cp1252.tbl
@@ -27,38 +27,38 @@ start
 # CP-1252 Translation - 0x0080-0x009F
 #
 
-0x0080		"\u20AC"	# EURO SIGN
+0x0080		"€"	# EURO SIGN
 0x0081		"-"		# undefined, or control character
-0x0082		"\u201A"	# SINGLE LOW-9 QUOTATION MARK
-0x0083		"\u0192"	# LATIN SMALL LETTER F WITH HOOK
-0x0084		"\u201E"	# DOUBLE LOW-9 QUOTATION MARK
-0x0085		"\u2026"	# HORIZONTAL ELLIPSIS
-0x0086		"\u2020"	# DAGGER
-0x0087		"\u2021"	# DOUBLE DAGGER
-0x0088		"\u02C6"	# MODIFIER LETTER CIRCUMFLEX ACCENT
-0x0089		"\u2030"	# PER MILLE SIGN
-0x008A		"\u0160"	# LATIN CAPITAL LETTER S WITH CARON
-0x008B		"\u2039"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
-0x008C		"\u0152"	# LATIN CAPITAL LIGATURE OE
+0x0082		"‚"	# SINGLE LOW-9 QUOTATION MARK
+0x0083		"ƒ"	# LATIN SMALL LETTER F WITH HOOK
+0x0084		"„"	# DOUBLE LOW-9 QUOTATION MARK
+0x0085		"…"	# HORIZONTAL ELLIPSIS
+0x0086		"†"	# DAGGER
+0x0087		"‡"	# DOUBLE DAGGER
+0x0088		"ˆ"	# MODIFIER LETTER CIRCUMFLEX ACCENT
+0x0089		"‰"	# PER MILLE SIGN
+0x008A		"Š"	# LATIN CAPITAL LETTER S WITH CARON
+0x008B		"‹"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
+0x008C		"Œ"	# LATIN CAPITAL LIGATURE OE
 0x008D		"-"		# undefined, or control character
-0x008E		"\u017D"	# LATIN CAPITAL LETTER Z WITH CARON
+0x008E		"Ž"	# LATIN CAPITAL LETTER Z WITH CARON
 0x008F		"-"		# undefined, or control character
 
 0x0090		"-"		# undefined, or control character
-0x0091		"\u2018"	# LEFT SINGLE QUOTATION MARK
-0x0092		"\u2019"	# RIGHT SINGLE QUOTATION MARK
-0x0093		"\u201C"	# LEFT DOUBLE QUOTATION MARK
-0x0094		"\u201D"	# RIGHT DOUBLE QUOTATION MARK
-0x0095		"\u2022"	# BULLET
-0x0096		"\u2013"	# EN DASH
-0x0097		"\u2014"	# EM DASH
-0x0098		"\u02DC"	# SMALL TILDE
-0x0099		"\u2122"	# TRADE MARK SIGN
-0x009A		"\u0161"	# LATIN SMALL LETTER S WITH CARON
-0x009B		"\u203A"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
-0x009C		"\u0153"	# LATIN SMALL LIGATURE OE
+0x0091		"‘"	# LEFT SINGLE QUOTATION MARK
+0x0092		"’"	# RIGHT SINGLE QUOTATION MARK
+0x0093		"“"	# LEFT DOUBLE QUOTATION MARK
+0x0094		"”"	# RIGHT DOUBLE QUOTATION MARK
+0x0095		"•"	# BULLET
+0x0096		"–"	# EN DASH
+0x0097		"—"	# EM DASH
+0x0098		"˜"	# SMALL TILDE
+0x0099		"™"	# TRADE MARK SIGN
+0x009A		"š"	# LATIN SMALL LETTER S WITH CARON
+0x009B		"›"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
+0x009C		"œ"	# LATIN SMALL LIGATURE OE
 0x009D		"-"		# undefined, or control character
-0x009E		"\u017E"	# LATIN SMALL LETTER Z WITH CARON
-0x009F		"\u0178"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
+0x009E		"ž"	# LATIN SMALL LETTER Z WITH CARON
+0x009F		"Ÿ"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
 
 end
diff --git a/table/iso8859_1.tbl b/table/iso8859_1.tbl
index 05dca18..f23f665 100644
--- a/table/iso8859_1.tbl
+++ b/table/iso8859_1.tbl
@@ -26,105 +26,105 @@ start
 #
 
 0x00A0		" "		# NO-BREAK SPACE
-0x00A1		"\u00A1"	# INVERTED EXCLAMATION MARK
-0x00A2		"\u00A2"	# CENT SIGN
-0x00A3		"\u00A3"	# POUND SIGN
-0x00A4		"\u00A4"	# CURRENCY SIGN
-0x00A5		"\u00A5"	# YEN SIGN
-0x00A6		"\u00A6"	# BROKEN BAR
-0x00A7		"\u00A7"	# SECTION SIGN
-0x00A8		"\u00A8"	# DIAERESIS
-0x00A9		"\u00A9"	# COPYRIGHT SIGN
-0x00AA		"\u00AA"	# FEMININE ORDINAL INDICATOR
-0x00AB		"\u00AB"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00AC		"\u00AC"	# NOT SIGN
+0x00A1		"¡"	# INVERTED EXCLAMATION MARK
+0x00A2		"¢"	# CENT SIGN
+0x00A3		"£"	# POUND SIGN
+0x00A4		"¤"	# CURRENCY SIGN
+0x00A5		"¥"	# YEN SIGN
+0x00A6		"¦"	# BROKEN BAR
+0x00A7		"§"	# SECTION SIGN
+0x00A8		"¨"	# DIAERESIS
+0x00A9		"©"	# COPYRIGHT SIGN
+0x00AA		"ª"	# FEMININE ORDINAL INDICATOR
+0x00AB		"«"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00AC		"¬"	# NOT SIGN
 0x00AD		"-"		# SOFT HYPHEN
-0x00AE		"\u00AE"	# REGISTERED SIGN
-0x00AF		"\u00AF"	# MACRON
+0x00AE		"®"	# REGISTERED SIGN
+0x00AF		"¯"	# MACRON
 
-0x00B0		"\u00B0"	# DEGREE SIGN
-0x00B1		"\u00B1"	# PLUS-MINUS SIGN
-0x00B2		"\u00B2"	# SUPERSCRIPT TWO
-0x00B3		"\u00B3"	# SUPERSCRIPT THREE
-0x00B4		"\u00B4"	# ACUTE ACCENT
-0x00B5		"\u00B5"	# MICRO SIGN
-0x00B6		"\u00B6"	# PILCROW SIGN
-0x00B7		"\u00B7"	# MIDDLE DOT
-0x00B8		"\u00B8"	# CEDILLA
-0x00B9		"\u00B9"	# SUPERSCRIPT ONE
-0x00BA		"\u00BA"	# MASCULINE ORDINAL INDICATOR
-0x00BB		"\u00BB"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00BC		"\u00BC"	# VULGAR FRACTION ONE QUARTER
-0x00BD		"\u00BD"	# VULGAR FRACTION ONE HALF
-0x00BE		"\u00BE"	# VULGAR FRACTION THREE QUARTERS
-0x00BF		"\u00BF"	# INVERTED QUESTION MARK
+0x00B0		"°"	# DEGREE SIGN
+0x00B1		"±"	# PLUS-MINUS SIGN
+0x00B2		"²"	# SUPERSCRIPT TWO
+0x00B3		"³"	# SUPERSCRIPT THREE
+0x00B4		"´"	# ACUTE ACCENT
+0x00B5		"µ"	# MICRO SIGN
+0x00B6		"¶"	# PILCROW SIGN
+0x00B7		"·"	# MIDDLE DOT
+0x00B8		"¸"	# CEDILLA
+0x00B9		"¹"	# SUPERSCRIPT ONE
+0x00BA		"º"	# MASCULINE ORDINAL INDICATOR
+0x00BB		"»"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00BC		"¼"	# VULGAR FRACTION ONE QUARTER
+0x00BD		"½"	# VULGAR FRACTION ONE HALF
+0x00BE		"¾"	# VULGAR FRACTION THREE QUARTERS
+0x00BF		"¿"	# INVERTED QUESTION MARK
 
-0x00C0		"\u00C0"	# LATIN CAPITAL LETTER A WITH GRAVE
-0x00C1		"\u00C1"	# LATIN CAPITAL LETTER A WITH ACUTE
-0x00C2		"\u00C2"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
-0x00C3		"\u00C3"	# LATIN CAPITAL LETTER A WITH TILDE
-0x00C4		"\u00C4"	# LATIN CAPITAL LETTER A WITH DIAERESIS
-0x00C5		"\u00C5"	# LATIN CAPITAL LETTER A WITH RING ABOVE
-0x00C6		"\u00C6"	# LATIN CAPITAL LETTER AE
-0x00C7		"\u00C7"	# LATIN CAPITAL LETTER C WITH CEDILLA
-0x00C8		"\u00C8"	# LATIN CAPITAL LETTER E WITH GRAVE
-0x00C9		"\u00C9"	# LATIN CAPITAL LETTER E WITH ACUTE
-0x00CA		"\u00CA"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
-0x00CB		"\u00CB"	# LATIN CAPITAL LETTER E WITH DIAERESIS
-0x00CC		"\u00CC"	# LATIN CAPITAL LETTER I WITH GRAVE
-0x00CD		"\u00CD"	# LATIN CAPITAL LETTER I WITH ACUTE
-0x00CE		"\u00CE"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
-0x00CF		"\u00CF"	# LATIN CAPITAL LETTER I WITH DIAERESIS
+0x00C0		"À"	# LATIN CAPITAL LETTER A WITH GRAVE
+0x00C1		"Á"	# LATIN CAPITAL LETTER A WITH ACUTE
+0x00C2		"Â"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
+0x00C3		"Ã"	# LATIN CAPITAL LETTER A WITH TILDE
+0x00C4		"Ä"	# LATIN CAPITAL LETTER A WITH DIAERESIS
+0x00C5		"Å"	# LATIN CAPITAL LETTER A WITH RING ABOVE
+0x00C6		"Æ"	# LATIN CAPITAL LETTER AE
+0x00C7		"Ç"	# LATIN CAPITAL LETTER C WITH CEDILLA
+0x00C8		"È"	# LATIN CAPITAL LETTER E WITH GRAVE
+0x00C9		"É"	# LATIN CAPITAL LETTER E WITH ACUTE
+0x00CA		"Ê"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
+0x00CB		"Ë"	# LATIN CAPITAL LETTER E WITH DIAERESIS
+0x00CC		"Ì"	# LATIN CAPITAL LETTER I WITH GRAVE
+0x00CD		"Í"	# LATIN CAPITAL LETTER I WITH ACUTE
+0x00CE		"Î"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
+0x00CF		"Ï"	# LATIN CAPITAL LETTER I WITH DIAERESIS
 
-0x00D0		"\u00D0"	# LATIN CAPITAL LETTER ETH (Icelandic)
-0x00D1		"\u00D1"	# LATIN CAPITAL LETTER N WITH TILDE
-0x00D2		"\u00D2"	# LATIN CAPITAL LETTER O WITH GRAVE
-0x00D3		"\u00D3"	# LATIN CAPITAL LETTER O WITH ACUTE
-0x00D4		"\u00D4"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
-0x00D5		"\u00D5"	# LATIN CAPITAL LETTER O WITH TILDE
-0x00D6		"\u00D6"	# LATIN CAPITAL LETTER O WITH DIAERESIS
-0x00D7		"\u00D7"	# MULTIPLICATION SIGN
-0x00D8		"\u00D8"	# LATIN CAPITAL LETTER O WITH STROKE
-0x00D9		"\u00D9"	# LATIN CAPITAL LETTER U WITH GRAVE
-0x00DA		"\u00DA"	# LATIN CAPITAL LETTER U WITH ACUTE
-0x00DB		"\u00DB"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
-0x00DC		"\u00DC"	# LATIN CAPITAL LETTER U WITH DIAERESIS
-0x00DD		"\u00DD"	# LATIN CAPITAL LETTER Y WITH ACUTE
-0x00DE		"\u00DE"	# LATIN CAPITAL LETTER THORN (Icelandic)
-0x00DF		"\u00DF"	# LATIN SMALL LETTER SHARP S (German)
+0x00D0		"Ð"	# LATIN CAPITAL LETTER ETH (Icelandic)
+0x00D1		"Ñ"	# LATIN CAPITAL LETTER N WITH TILDE
+0x00D2		"Ò"	# LATIN CAPITAL LETTER O WITH GRAVE
+0x00D3		"Ó"	# LATIN CAPITAL LETTER O WITH ACUTE
+0x00D4		"Ô"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
+0x00D5		"Õ"	# LATIN CAPITAL LETTER O WITH TILDE
+0x00D6		"Ö"	# LATIN CAPITAL LETTER O WITH DIAERESIS
+0x00D7		"×"	# MULTIPLICATION SIGN
+0x00D8		"Ø"	# LATIN CAPITAL LETTER O WITH STROKE
+0x00D9		"Ù"	# LATIN CAPITAL LETTER U WITH GRAVE
+0x00DA		"Ú"	# LATIN CAPITAL LETTER U WITH ACUTE
+0x00DB		"Û"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
+0x00DC		"Ü"	# LATIN CAPITAL LETTER U WITH DIAERESIS
+0x00DD		"Ý"	# LATIN CAPITAL LETTER Y WITH ACUTE
+0x00DE		"Þ"	# LATIN CAPITAL LETTER THORN (Icelandic)
+0x00DF		"ß"	# LATIN SMALL LETTER SHARP S (German)
 
-0x00E0		"\u00E0"	# LATIN SMALL LETTER A WITH GRAVE
-0x00E1		"\u00E1"	# LATIN SMALL LETTER A WITH ACUTE
-0x00E2		"\u00E2"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
-0x00E3		"\u00E3"	# LATIN SMALL LETTER A WITH TILDE
-0x00E4		"\u00E4"	# LATIN SMALL LETTER A WITH DIAERESIS
-0x00E5		"\u00E5"	# LATIN SMALL LETTER A WITH RING ABOVE
-0x00E6		"\u00E6"	# LATIN SMALL LETTER AE
-0x00E7		"\u00E7"	# LATIN SMALL LETTER C WITH CEDILLA
-0x00E8		"\u00E8"	# LATIN SMALL LETTER E WITH GRAVE
-0x00E9		"\u00E9"	# LATIN SMALL LETTER E WITH ACUTE
-0x00EA		"\u00EA"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
-0x00EB		"\u00EB"	# LATIN SMALL LETTER E WITH DIAERESIS
-0x00EC		"\u00EC"	# LATIN SMALL LETTER I WITH GRAVE
-0x00ED		"\u00ED"	# LATIN SMALL LETTER I WITH ACUTE
-0x00EE		"\u00EE"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
-0x00EF		"\u00EF"	# LATIN SMALL LETTER I WITH DIAERESIS
+0x00E0		"à"	# LATIN SMALL LETTER A WITH GRAVE
+0x00E1		"á"	# LATIN SMALL LETTER A WITH ACUTE
+0x00E2		"â"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
+0x00E3		"ã"	# LATIN SMALL LETTER A WITH TILDE
+0x00E4		"ä"	# LATIN SMALL LETTER A WITH DIAERESIS
+0x00E5		"å"	# LATIN SMALL LETTER A WITH RING ABOVE
+0x00E6		"æ"	# LATIN SMALL LETTER AE
+0x00E7		"ç"	# LATIN SMALL LETTER C WITH CEDILLA
+0x00E8		"è"	# LATIN SMALL LETTER E WITH GRAVE
+0x00E9		"é"	# LATIN SMALL LETTER E WITH ACUTE
+0x00EA		"ê"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
+0x00EB		"ë"	# LATIN SMALL LETTER E WITH DIAERESIS
+0x00EC		"ì"	# LATIN SMALL LETTER I WITH GRAVE
+0x00ED		"í"	# LATIN SMALL LETTER I WITH ACUTE
+0x00EE		"î"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
+0x00EF		"ï"	# LATIN SMALL LETTER I WITH DIAERESIS
 
-0x00F0		"\u00F0"	# LATIN SMALL LETTER ETH (Icelandic)
-0x00F1		"\u00F1"	# LATIN SMALL LETTER N WITH TILDE
-0x00F2		"\u00F2"	# LATIN SMALL LETTER O WITH GRAVE
-0x00F3		"\u00F3"	# LATIN SMALL LETTER O WITH ACUTE
-0x00F4		"\u00F4"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
-0x00F5		"\u00F5"	# LATIN SMALL LETTER O WITH TILDE
-0x00F6		"\u00F6"	# LATIN SMALL LETTER O WITH DIAERESIS
-0x00F7		"\u00F7"	# DIVISION SIGN
-0x00F8		"\u00F8"	# LATIN SMALL LETTER O WITH STROKE
-0x00F9		"\u00F9"	# LATIN SMALL LETTER U WITH GRAVE
-0x00FA		"\u00FA"	# LATIN SMALL LETTER U WITH ACUTE
-0x00FB		"\u00FB"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
-0x00FC		"\u00FC"	# LATIN SMALL LETTER U WITH DIAERESIS
-0x00FD		"\u00FD"	# LATIN SMALL LETTER Y WITH ACUTE
-0x00FE		"\u00FE"	# LATIN SMALL LETTER THORN (Icelandic)
-0x00FF		"\u00FF"	# LATIN SMALL LETTER Y WITH DIAERESIS
+0x00F0		"ð"	# LATIN SMALL LETTER ETH (Icelandic)
+0x00F1		"ñ"	# LATIN SMALL LETTER N WITH TILDE
+0x00F2		"ò"	# LATIN SMALL LETTER O WITH GRAVE
+0x00F3		"ó"	# LATIN SMALL LETTER O WITH ACUTE
+0x00F4		"ô"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
+0x00F5		"õ"	# LATIN SMALL LETTER O WITH TILDE
+0x00F6		"ö"	# LATIN SMALL LETTER O WITH DIAERESIS
+0x00F7		"÷"	# DIVISION SIGN
+0x00F8		"ø"	# LATIN SMALL LETTER O WITH STROKE
+0x00F9		"ù"	# LATIN SMALL LETTER U WITH GRAVE
+0x00FA		"ú"	# LATIN SMALL LETTER U WITH ACUTE
+0x00FB		"û"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
+0x00FC		"ü"	# LATIN SMALL LETTER U WITH DIAERESIS
+0x00FD		"ý"	# LATIN SMALL LETTER Y WITH ACUTE
+0x00FE		"þ"	# LATIN SMALL LETTER THORN (Icelandic)
+0x00FF		"ÿ"	# LATIN SMALL LETTER Y WITH DIAERESIS
 
 end
-- 
2.43.0


From 01804cc9a4a81852442a3b5032a3dc5a536d9a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:29 +0000
Subject: [PATCH 14/29] fix: only replace an existing name when it differs in
 case from the old one

When another process renames a file just before detox looks at the new
name, that name is the file itself.  Should the old name then be taken by
another file, renaming it would have replaced the first one.
---
 src/file.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 36a3839..2f8b95a 100644
--- a/src/file.c
+++ b/src/file.c
@@ -19,6 +19,7 @@
 #include <stdlib.h>
 #include <dirent.h>
 #include <string.h>
+#include <strings.h>
 #include <errno.h>
 
 #include "clean_utf_8.h"
@@ -176,7 +177,8 @@ char *parse_file(char *filename, options_t *options)
     if (exists) { // New file exists
         if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
                 stat_info_old.st_ino != stat_info_new.st_ino || // Different inode
-                stat_info_old.st_nlink > 1) { // More than one hard link
+                stat_info_old.st_nlink > 1 || // More than one hard link
+                strcasecmp(old_filename_ptr, new_filename + len) != 0) { // Renamed by someone else
             fprintf(stderr, "Cannot rename %s to %s: file already exists\n", old_filename, new_filename);
 
             free(new_filename);
-- 
2.43.0


From 9f9c920598209d680656b3a5ca265c0f1ffbbc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:02 +0000
Subject: [PATCH 15/29] fix: look up bytes above 0x7f in the table of the safe
 filter

The lookup used the byte's signed value, so a row for a code from 0x80 to 0xff
was never used.
---
 src/clean_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index a283637..028172f 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -106,7 +106,7 @@ char *clean_safe(char *filename, table_t *table)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        replace_walk = table_get(table, *input_walk);
+        replace_walk = table_get(table, (unsigned char) *input_walk);
         if (replace_walk == NULL) {
             if (table->default_translation == NULL) {
 
-- 
2.43.0


From 852755a2bca633e301510ab496dadb54a1afe552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:49 +0000
Subject: [PATCH 16/29] fix: reject a string without an end in a config file

The message was printed, but the rest of the line became part of the name
and detox went on to rename files.
---
 src/config_file_lex.c | 62 ++++++++++++++++++++++---------------------
 src/config_file_lex.l |  4 ++-
 2 files changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 07ac578..7d5986b 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -560,8 +560,10 @@ char *yytext;
 
 int config_file_lineno = 1;
 
-#line 564 "config_file_lex.c"
-#line 565 "config_file_lex.c"
+void yyerror (char *s);
+
+#line 566 "config_file_lex.c"
+#line 567 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -778,10 +780,10 @@ YY_DECL
 		}
 
 	{
-#line 21 "config_file_lex.l"
+#line 23 "config_file_lex.l"
 
 
-#line 785 "config_file_lex.c"
+#line 787 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -840,103 +842,103 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 23 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 25 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 27 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 30 "config_file_lex.l"
+#line 32 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 42 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 41 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 45 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 44 "config_file_lex.l"
+#line 46 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 46 "config_file_lex.l"
+#line 48 "config_file_lex.l"
 {
     yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
+        yyerror("unterminated character string");
     }
     else {
         yylval.string[yyleng-2] = '\0';
@@ -946,7 +948,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 57 "config_file_lex.l"
+#line 59 "config_file_lex.l"
 {
     yylval.string = wrapped_strdup(yytext);
     return ID;
@@ -954,7 +956,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 62 "config_file_lex.l"
+#line 64 "config_file_lex.l"
 {
     yylval.nvalue = atoi(yytext);
     return NVALUE;
@@ -962,15 +964,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 67 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 69 "config_file_lex.l"
+#line 71 "config_file_lex.l"
 ECHO;
 	YY_BREAK
-#line 974 "config_file_lex.c"
+#line 976 "config_file_lex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1975,6 +1977,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 69 "config_file_lex.l"
+#line 71 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 2dc6a9e..9c09104 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -14,6 +14,8 @@
 
 int config_file_lineno = 1;
 
+void yyerror (char *s);
+
 %}
 
 %option noyywrap
@@ -46,7 +48,7 @@ wipeup             { return WIPEUP; }
 \"[^\"\n]*[\"\n] {
     yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
+        yyerror("unterminated character string");
     }
     else {
         yylval.string[yyleng-2] = '\0';
-- 
2.43.0


From 892c49cc9fa2569ad5df077d28ef0ac395c16ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 17/29] fix: count lines from the start of each config file

Errors in the second and later config files were reported with the lines of the
files before added.
---
 src/config_file_yacc.c | 1 +
 src/config_file_yacc.y | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/config_file_yacc.c b/src/config_file_yacc.c
index 39d67f2..a5977a7 100644
--- a/src/config_file_yacc.c
+++ b/src/config_file_yacc.c
@@ -1630,6 +1630,7 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     config_file_t *ret = NULL;
 
     current_filename = filename;
+    config_file_lineno = 1;
 
     /*
      * XXX - Should we be closing the default yyin/yyout?  If so, should we
diff --git a/src/config_file_yacc.y b/src/config_file_yacc.y
index 5164f8c..19d8c37 100644
--- a/src/config_file_yacc.y
+++ b/src/config_file_yacc.y
@@ -181,6 +181,7 @@ config_file_t *parse_config_file(char *filename, config_file_t *previous_results
     config_file_t *ret = NULL;
 
     current_filename = filename;
+    config_file_lineno = 1;
 
     /*
      * XXX - Should we be closing the default yyin/yyout?  If so, should we
-- 
2.43.0


From de482229c92f08449dd9959c1eaad5ac10f76ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:32 +0000
Subject: [PATCH 18/29] fix: do not read past the end of a string with a NUL in
 a config file

---
 src/config_file_lex.c | 6 +++---
 src/config_file_lex.l | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 7d5986b..b877213 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -936,13 +936,13 @@ case 19:
 YY_RULE_SETUP
 #line 48 "config_file_lex.l"
 {
-    yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    if (yytext[yyleng-1] != '"') {
         yyerror("unterminated character string");
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yytext[yyleng-1] = '\0';
     }
+    yylval.string = wrapped_strdup(yytext+1);
     return QSTRING;
 }
 	YY_BREAK
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 9c09104..e78a409 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -46,13 +46,13 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
+    if (yytext[yyleng-1] != '"') {
         yyerror("unterminated character string");
     }
     else {
-        yylval.string[yyleng-2] = '\0';
+        yytext[yyleng-1] = '\0';
     }
+    yylval.string = wrapped_strdup(yytext+1);
     return QSTRING;
 }
 
-- 
2.43.0


From 1e647d8df7db76031e74dc0467b253506eeef774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 19/29] fix: read lines of any length in translation tables

The rest of a comment or row of more than 1023 bytes was taken for a line of
its own.
---
 src/parse_table.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index 8b24b14..1934f7a 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -36,6 +36,8 @@ table_t *parse_table(char *filename)
     int ret;
     int state;
     char *system_ctype;
+    size_t parsed_size;
+    size_t work_size;
 
     table_t *table;
 
@@ -77,13 +79,21 @@ table_t *parse_table(char *filename)
         return NULL;
     }
 
-    work = wrapped_malloc(1024);
+    work_size = 1024;
+    work = wrapped_malloc(work_size);
 
-    parsed = wrapped_malloc(1024);
+    parsed_size = work_size;
+    parsed = wrapped_malloc(parsed_size);
 
     state = BASE_STATE;
 
-    while (fgets(work, 1024, table_file) != NULL) {
+    while (getline(&work, &work_size, table_file) != -1) {
+        if (parsed_size < work_size) {
+            free(parsed);
+            parsed_size = work_size;
+            parsed = wrapped_malloc(parsed_size);
+        }
+
         if (*work == '#') {
 
             /*
-- 
2.43.0


From 07b8a9da4dbec59227e28c272b91a19bb9748a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:02 +0000
Subject: [PATCH 20/29] fix: refuse translation tables that cannot be read

A directory, or a file that failed to be read, was used like a table that ends
there.
---
 src/parse_table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse_table.c b/src/parse_table.c
index 1934f7a..0fac49d 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -211,6 +211,13 @@ table_t *parse_table(char *filename)
         }
     }
 
+    err = ferror(table_file);
+    if (err) {
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(errno));
+        table_free(table);
+        table = NULL;
+    }
+
     free(work);
     free(parsed);
     fclose(table_file);
-- 
2.43.0


From d3c5b3d46f9d3677ae9c358d3d5b6f5d64281d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 21/29] fix: report input that cannot be read in inline mode

A link to a directory, or a file that failed to be read, was treated like one
that ends there, without a word.
---
 src/file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file.c b/src/file.c
index 2f8b95a..8063514 100644
--- a/src/file.c
+++ b/src/file.c
@@ -480,6 +480,10 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         }
     }
 
+    if (ferror(in_fp)) {
+        fprintf(stderr, "%s: %s\n", in_filename != NULL ? in_filename : "stdin", strerror(errno));
+    }
+
     if (in_filename != NULL) {
         fclose(in_fp);
     }
-- 
2.43.0


From 68d4dcb223aab309ddddd4a95baa46a965041a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 22/29] fix: report output that could not be written

With a full disk, the output of inline mode was cut off, and detox ended with
a zero exit status and without a word.
---
 src/detox.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/detox.c b/src/detox.c
index 111ad8e..3b0cbf0 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -12,6 +12,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <unistd.h>
 
 #include "detox_struct.h"
 
@@ -22,6 +23,18 @@
 #include "parse_options.h"
 #include "sequence.h"
 
+/**
+ * Makes sure that everything that was printed was written, too.  Otherwise
+ * output would be lost without a word, if the disk is full.
+ */
+static void check_stdout(void)
+{
+    if (fflush(stdout) == EOF || ferror(stdout)) {
+        fprintf(stderr, "detox: write error: %s\n", strerror(errno));
+        _exit(EXIT_FAILURE);
+    }
+}
+
 int main(int argc, char **argv)
 {
     struct stat stat_info;
@@ -33,6 +46,8 @@ int main(int argc, char **argv)
     char *file_work = NULL;
     char *file_walk;
 
+    atexit(check_stdout);
+
     main_options = parse_options_getopt(argc, argv);
 
     if (main_options == NULL) {
-- 
2.43.0


From b70b6f43f1b502084d928231dfd2f70cc819910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:55 +0000
Subject: [PATCH 23/29] fix: report directories and entries that could not be
 examined

They were skipped without a word, and a listing that failed was taken for a
complete one.
---
 src/file.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/file.c b/src/file.c
index 8063514..fcc3675 100644
--- a/src/file.c
+++ b/src/file.c
@@ -72,6 +72,18 @@ static int is_protected(const char *filename)
     return (filename[0] == '.' && (filename[1] == '\0' || (filename[1] == '.' && filename[2] == '\0')));
 }
 
+/**
+ * Reports a file that couldn't be examined, unless it's just gone.
+ *
+ * @param filename The file
+ */
+static void report_unreachable(const char *filename)
+{
+    if (errno != ENOENT) {
+        fprintf(stderr, "%s: %s\n", filename, strerror(errno));
+    }
+}
+
 /**
  * Renames a file to a filename that isn't taken, and makes sure that it still
  * isn't taken at that point, if the system provides the means to.
@@ -163,6 +175,7 @@ char *parse_file(char *filename, options_t *options)
 
     err = lstat(old_filename, &stat_info_old);
     if (err == -1) {
+        report_unreachable(old_filename);
         free(new_filename);
         return old_filename;
     }
@@ -227,6 +240,7 @@ void parse_dir(char *filename, options_t *options)
 
     err = lstat(filename, &stat_info);
     if (err == -1) {
+        report_unreachable(filename);
         return;
     }
 
@@ -243,11 +257,12 @@ void parse_dir(char *filename, options_t *options)
 
     dir_handle = opendir(filename);
     if (dir_handle == NULL) {
-        fprintf(stderr, "unable to parse: %s\n", strerror(errno));
+        err = errno;
+        fprintf(stderr, "unable to parse %s: %s\n", filename, strerror(err));
         free(new_file);
 
         // too many open files
-        if (errno == EMFILE) {
+        if (err == EMFILE) {
             exit(EXIT_FAILURE);
         }
 
@@ -260,7 +275,7 @@ void parse_dir(char *filename, options_t *options)
      */
     entries = filelist_init();
 
-    while ((dir_entry = readdir(dir_handle)) != NULL) {
+    while (errno = 0, (dir_entry = readdir(dir_handle)) != NULL) {
 
         /*
          * Check for files that need to be ignored
@@ -269,13 +284,18 @@ void parse_dir(char *filename, options_t *options)
             filelist_put(entries, dir_entry->d_name);
         }
     }
+    if (errno != 0) {
+        fprintf(stderr, "unable to parse all of %s: %s\n", filename, strerror(errno));
+    }
     closedir(dir_handle);
 
     while ((entry = filelist_get(entries))) {
         snprintf(new_file, new_file_length, "%s/%s", filename, entry);
 
         err = lstat(new_file, &stat_info);
-        if (err != -1) {
+        if (err == -1) {
+            report_unreachable(new_file);
+        } else {
             if (S_ISDIR(stat_info.st_mode)) {
                 work = parse_file(new_file, options);
                 if (options->recurse) {
-- 
2.43.0


From ccac2d40967f3817d757562d9af0524a5bb79f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:49 +0000
Subject: [PATCH 24/29] fix: recognize a change of case whatever the locale

---
 src/file.c | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index fcc3675..6e41402 100644
--- a/src/file.c
+++ b/src/file.c
@@ -19,7 +19,6 @@
 #include <stdlib.h>
 #include <dirent.h>
 #include <string.h>
-#include <strings.h>
 #include <errno.h>
 
 #include "clean_utf_8.h"
@@ -84,6 +83,42 @@ static void report_unreachable(const char *filename)
     }
 }
 
+/**
+ * Whether or not two filenames can only differ in case.  ASCII letters are
+ * compared by their value, whatever the locale makes of them, and characters
+ * that aren't ASCII are left to the filesystem.
+ *
+ * @param a A filename
+ * @param b Another filename
+ *
+ * @return bool
+ */
+static int is_case_change(const char *a, const char *b)
+{
+    int char_a, char_b;
+
+    do {
+        while ((*a & 0x80) != 0) {
+            a++;
+        }
+        while ((*b & 0x80) != 0) {
+            b++;
+        }
+
+        char_a = *a++;
+        char_b = *b++;
+
+        if (char_a >= 'A' && char_a <= 'Z') {
+            char_a += 'a' - 'A';
+        }
+        if (char_b >= 'A' && char_b <= 'Z') {
+            char_b += 'a' - 'A';
+        }
+    } while (char_a == char_b && char_a != '\0');
+
+    return (char_a == char_b);
+}
+
 /**
  * Renames a file to a filename that isn't taken, and makes sure that it still
  * isn't taken at that point, if the system provides the means to.
@@ -191,7 +226,7 @@ char *parse_file(char *filename, options_t *options)
         if (stat_info_old.st_dev != stat_info_new.st_dev || // Different device
                 stat_info_old.st_ino != stat_info_new.st_ino || // Different inode
                 stat_info_old.st_nlink > 1 || // More than one hard link
-                strcasecmp(old_filename_ptr, new_filename + len) != 0) { // Renamed by someone else
+                !is_case_change(old_filename_ptr, new_filename + len)) { // Renamed by someone else
             fprintf(stderr, "Cannot rename %s to %s: file already exists\n", old_filename, new_filename);
 
             free(new_filename);
-- 
2.43.0


From 903f7aebe42a7f5259741fa099f3c66631e25a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:58 +0000
Subject: [PATCH 25/29] fix: escape the default of a generated table

---
 src/generate_builtin_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index dcb03e2..68c30eb 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -131,7 +131,7 @@ static void generate_loader(char *filename)
     } else {
         printf(
             "    .default_translation = \"%s\",\n",
-            table->default_translation
+            escape_string(table->default_translation)
         );
     }
 
-- 
2.43.0


From f9606ccd7e51bef85863a763d047528099078257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:59 +0000
Subject: [PATCH 26/29] fix: report a table that can't be loaded when
 generating from it

---
 src/generate_builtin_table.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index 68c30eb..5f7c0cf 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -12,6 +12,7 @@
  */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 #include <math.h>
 #include <libgen.h>
@@ -65,6 +66,10 @@ static void generate_loader(char *filename)
     int i;
 
     hold_table = parse_table(filename);
+    if (hold_table == NULL) {
+        fprintf(stderr, "Unable to load table: %s\n", filename);
+        exit(EXIT_FAILURE);
+    }
 
     table = table_resize(hold_table, hold_table->max_key + 1, 1);
 
-- 
2.43.0


From bf82ff92266fb49925e762263c733a7bc7109ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 27/29] fix: release the copy of a filename that stays as it is

---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 6e41402..a9c7e05 100644
--- a/src/file.c
+++ b/src/file.c
@@ -175,6 +175,7 @@ char *parse_file(char *filename, options_t *options)
     work = wrapped_strdup(old_filename_ptr);
 
     if (is_protected(work)) {
+        free(work);
         work = NULL;
     }
 
@@ -190,6 +191,7 @@ char *parse_file(char *filename, options_t *options)
 
     /* check to see if nothing changed */
     if (strcmp(old_filename_ptr, work) == 0) {
+        free(work);
         return old_filename;
     }
 
-- 
2.43.0


From 5522ca71374299ac583e03bcaa26dc32985bf01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 28/29] fix: release the buffers of inline mode

---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index a9c7e05..70c8f6d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -511,6 +511,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         work = wrapped_strdup(base);
 
         if (is_protected(work)) {
+            free(work);
             work = NULL;
         }
 
@@ -548,4 +549,6 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
     if (out_filename != NULL) {
         fclose(out_fp);
     }
+
+    free(base);
 }
-- 
2.43.0


From 3bf14c042e04c01238fc2d20a7e3617ecb58c0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:58 +0000
Subject: [PATCH 29/29] fix: release the filenames that come back for arguments

---
 src/detox.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/detox.c b/src/detox.c
index 3b0cbf0..3d8a9b3 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -118,9 +118,11 @@ int main(int argc, char **argv)
                     parse_dir(file_work, main_options);
                     free(file_work);
                 } else if (S_ISREG(stat_info.st_mode)) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 } else if (main_options->special) {
-                    parse_file(file_walk, main_options);
+                    file_work = parse_file(file_walk, main_options);
+                    free(file_work);
                 }
             }
         }
-- 
2.43.0

