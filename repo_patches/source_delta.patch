From b710718edfcb94377b6ad3bd5cc25bcd5f29e59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:58 +0000
Subject: [PATCH 01/35] fix: search the whole ignore list for every directory
 entry

---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 00a03cc..1068c6b 100644
--- a/src/file.c
+++ b/src/file.c
@@ -38,6 +38,9 @@ static int ignore_file(const char *filename, const options_t *options)
         return 1;
     }
 
+    // a match leaves the list part way through, so always start at the top
+    filelist_reset(options->files_to_ignore);
+
     while ((file_walk = filelist_get(options->files_to_ignore))) {
         if (strcmp(filename, file_walk) == 0) {
             return 1;
-- 
2.43.0


From bdb570a8592cb1720a7a0b4e263baac7a8254b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:18 +0000
Subject: [PATCH 02/35] fix: refuse cleaned names that are empty or contain a
 slash

---
 src/file.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/file.c b/src/file.c
index 1068c6b..658e44c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -116,6 +116,13 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    /* the result has to be a name, and has to stay in the same directory */
+    if (work[0] == '\0' || strchr(work, '/') != NULL) {
+        fprintf(stderr, "Cannot rename %s to %s: not a valid filename\n", old_filename, work);
+        free(work);
+        return old_filename;
+    }
+
     len = (old_filename_ptr - old_filename);
     new_filename = wrapped_malloc(len + strlen(work) + 1);
 
-- 
2.43.0


From 537466b6f61684266daaff37c6799ff19836b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:23 +0000
Subject: [PATCH 03/35] fix: read a directory completely before renaming its
 entries

---
 src/file.c | 52 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/file.c b/src/file.c
index 658e44c..b74d4a0 100644
--- a/src/file.c
+++ b/src/file.c
@@ -175,11 +175,11 @@ char *parse_file(char *filename, options_t *options)
  */
 void parse_dir(char *filename, options_t *options)
 {
-    char *new_file, *work;
+    char *entry, *new_file, *work;
     DIR *dir_handle;
+    filelist_t *entries;
     struct dirent *dir_entry;
     struct stat stat_info;
-    int check_file;
     int err;
     size_t new_file_length;
 
@@ -212,33 +212,45 @@ void parse_dir(char *filename, options_t *options)
         return;
     }
 
-    dir_entry = readdir(dir_handle);
-
-    while (dir_entry != NULL) {
+    /*
+     * Take the names before renaming anything: readdir() may return an entry
+     * again, under its new name, if it is renamed during the scan.
+     */
+    entries = filelist_init();
 
+    while ((dir_entry = readdir(dir_handle)) != NULL) {
         /*
          * Check for files that need to be ignored
          */
-        check_file = !ignore_file(dir_entry->d_name, options);
+        if (!ignore_file(dir_entry->d_name, options)) {
+            filelist_put(entries, dir_entry->d_name);
+        }
+    }
 
-        if (check_file) {
-            snprintf(new_file, new_file_length, "%s/%s", filename, dir_entry->d_name);
+    closedir(dir_handle);
 
-            lstat(new_file, &stat_info);
-            if (S_ISDIR(stat_info.st_mode)) {
-                work = parse_file(new_file, options);
-                if (options->recurse) {
-                    parse_dir(work, options);
-                }
-                free(work);
-            } else if (S_ISREG(stat_info.st_mode) || options->special) {
-                work = parse_file(new_file, options);
-                free(work);
+    while ((entry = filelist_get(entries)) != NULL) {
+        snprintf(new_file, new_file_length, "%s/%s", filename, entry);
+
+        err = lstat(new_file, &stat_info);
+        if (err == -1) {
+            continue;
+        }
+
+        if (S_ISDIR(stat_info.st_mode)) {
+            work = parse_file(new_file, options);
+            if (options->recurse) {
+                parse_dir(work, options);
             }
+            free(work);
+        } else if (S_ISREG(stat_info.st_mode) || options->special) {
+            work = parse_file(new_file, options);
+            free(work);
         }
-        dir_entry = readdir(dir_handle);
     }
-    closedir(dir_handle);
+
+    filelist_free(entries);
+    free(new_file);
 }
 
 /**
-- 
2.43.0


From b281903cc5bb9abbd0d29ae7203b0623946296d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:05 +0000
Subject: [PATCH 04/35] fix: size filter output for default translations and
 encoded NULLs

---
 src/clean_string.c |  4 ++--
 src/clean_utf_8.c  |  8 +++++++-
 src/table.c        | 24 ++++++++++++++++++++++++
 src/table.h        |  1 +
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index b3cbeea..81cbf70 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -40,7 +40,7 @@ char *clean_iso8859_1(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_expansion(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
@@ -100,7 +100,7 @@ char *clean_safe(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    output = wrapped_malloc((strlen(filename) * table_max_expansion(table)) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/clean_utf_8.c b/src/clean_utf_8.c
index 56d9051..e3050fe 100644
--- a/src/clean_utf_8.c
+++ b/src/clean_utf_8.c
@@ -60,6 +60,7 @@ static char *invalid_replacement = "_";
 char *clean_utf_8(char *filename, table_t *table)
 {
     char *output, *input_walk, *output_walk, *replace_walk;
+    size_t max_expansion;
     unsigned int new_value;
     int expected_chars;
     int characters_eaten;
@@ -75,7 +76,12 @@ char *clean_utf_8(char *filename, table_t *table)
         exit(EXIT_FAILURE);
     }
 
-    output = wrapped_malloc((strlen(filename) * table->max_data_length) + 1);
+    max_expansion = table_max_expansion(table);
+    if (max_expansion < strlen(null_replacement)) {
+        max_expansion = strlen(null_replacement);
+    }
+
+    output = wrapped_malloc((strlen(filename) * max_expansion) + 1);
 
     input_walk = filename;
     output_walk = output;
diff --git a/src/table.c b/src/table.c
index fefeac5..02b0367 100644
--- a/src/table.c
+++ b/src/table.c
@@ -219,3 +219,27 @@ char *table_get(table_t *table, unsigned int key)
 
     return table->rows[offset].data;
 }
+
+/**
+ * Returns the largest number of bytes that a single input byte can turn into
+ * when it is run through a table.  A byte that isn't in the table may be kept
+ * as is, or be replaced by the default translation.
+ *
+ * @param table The table to use.
+ *
+ * @return The number of bytes, which is at least 1.
+ */
+size_t table_max_expansion(table_t *table)
+{
+    size_t ret = 1;
+
+    if (table->max_data_length > 0 && (size_t) table->max_data_length > ret) {
+        ret = table->max_data_length;
+    }
+
+    if (table->default_translation != NULL && strlen(table->default_translation) > ret) {
+        ret = strlen(table->default_translation);
+    }
+
+    return ret;
+}
diff --git a/src/table.h b/src/table.h
index d2999ae..e8a7e3c 100644
--- a/src/table.h
+++ b/src/table.h
@@ -19,5 +19,6 @@ extern table_t *table_resize(table_t *table, int rows, int use_hash);
 extern void table_free(table_t *table);
 extern int table_put(table_t *table, unsigned int key, char *data);
 extern char *table_get(table_t *table, unsigned int key);
+extern size_t table_max_expansion(table_t *table);
 
 #endif /* __TABLE_H */
-- 
2.43.0


From 4950e2e5bde8962bec33f995a4f2acdd64c3d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:11 +0000
Subject: [PATCH 05/35] fix: treat an empty quoted default in a table as no
 default

---
 src/parse_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse_table.c b/src/parse_table.c
index e86851a..da5fa9d 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -133,6 +133,8 @@ table_t *parse_table(char *filename)
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -141,7 +143,8 @@ table_t *parse_table(char *filename)
                     sscanf(work + offset, "%s", parsed);
                 }
 
-                table->default_translation = wrapped_strdup(parsed);
+                // an empty default means that there isn't one
+                table->default_translation = (parsed[0] == '\0') ? NULL : wrapped_strdup(parsed);
 
                 continue;
             }
-- 
2.43.0


From 702b898b2606d4d5838314dd0fa8259f70274948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:18 +0000
Subject: [PATCH 06/35] fix: make room for every row of a compact translation
 table

---
 src/check_table.c | 5 +++--
 src/parse_table.c | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index d837081..3607c3c 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -24,7 +24,8 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+/* the shortest possible row, e.g. "1x\n" */
+#define LINE_LENGTH 3
 
 enum {
     BASE_STATE,
@@ -58,7 +59,7 @@ static table_t *check_table(char *filename, int use_hash)
     size = 0;
 
     if (table_stat.st_size > 0) {
-        size = table_stat.st_size / LINE_LENGTH;
+        size = (table_stat.st_size / LINE_LENGTH) + 1;
     }
 #ifdef HAVE_STRUCT_STAT_ST_BLOCKS
     else {
diff --git a/src/parse_table.c b/src/parse_table.c
index da5fa9d..5dd4a49 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -17,7 +17,8 @@
 #include "table.h"
 #include "wrapped.h"
 
-#define LINE_LENGTH 6
+/* the shortest possible row, e.g. "1x\n" */
+#define LINE_LENGTH 3
 
 enum {
     BASE_STATE,
@@ -54,7 +55,7 @@ table_t *parse_table(char *filename)
     size = 0;
 
     if (table_stat.st_size > 0) {
-        size = table_stat.st_size / LINE_LENGTH;
+        size = (table_stat.st_size / LINE_LENGTH) + 1;
     }
 #ifdef HAVE_STRUCT_STAT_ST_BLOCKS
     else {
-- 
2.43.0


From f51135344a859c073e35e3b0fbd799a4defdd4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:25 +0000
Subject: [PATCH 07/35] fix: do not count a replaced row as an additional one

---
 src/table.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/table.c b/src/table.c
index 02b0367..89afe6b 100644
--- a/src/table.c
+++ b/src/table.c
@@ -123,10 +123,6 @@ int table_put(table_t *table, unsigned int key, char *data)
         return -1;
     }
 
-    if (table->length == table->used) {
-        return -1;
-    }
-
     offset = -1;
 
     if (table->use_hash) {
@@ -152,11 +148,12 @@ int table_put(table_t *table, unsigned int key, char *data)
 
     if (table->rows[offset].key == key) {
         table->overwrites++;
+    } else {
+        table->used++;
     }
 
     table->rows[offset].key = key;
     table->rows[offset].data = wrapped_strdup(data);
-    table->used++;
 
     if (table->max_key < key) {
         table->max_key = key;
-- 
2.43.0


From 1d47196110903e81bdf772a655ee0a7599eec68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 08/35] fix: do not look for a UTF-8 start byte before the
 inline buffer

---
 src/file.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/file.c b/src/file.c
index b74d4a0..e1ecfd8 100644
--- a/src/file.c
+++ b/src/file.c
@@ -313,7 +313,9 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             //
 
             hold = seek = strchr(base, '\0');
-            seek--;
+            if (seek > base) {
+                seek--;
+            }
 
 #ifdef DEBUG
             if (is_utf_8_cont(*seek)) {
@@ -321,7 +323,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
             }
 #endif
 
-            while (is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
+            while (seek > base && is_utf_8_cont(*seek) && (hold - seek) < UTF_8_MAX_LENGTH) {
 #ifdef DEBUG
                 fprintf(stderr, "detox: debug: at %02x, moving back one\n", (unsigned char) *seek);
 #endif
-- 
2.43.0


From c9e8a20f5a6020737933f37b8da34514a49cfcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:53 +0000
Subject: [PATCH 09/35] fix: do not cut a filename short at a CGI-escaped NUL

---
 src/clean_string.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/clean_string.c b/src/clean_string.c
index 81cbf70..8ed0272 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -156,6 +156,12 @@ char *clean_uncgi(char *filename)
 
     while (*input_walk != '\0') {
         if (input_walk[0] == '%' && isxdigit((int) input_walk[1]) && isxdigit((int) input_walk[2])) {
+            if (input_walk[1] == '0' && input_walk[2] == '0') {
+                // a NUL can't be part of a filename, so leave %00 as it is
+                *output_walk++ = *input_walk++;
+                continue;
+            }
+
             conv[0] = input_walk[1];
             conv[1] = input_walk[2];
             conv[2] = 0;
-- 
2.43.0


From 54ca24eacf5412cc43f4386b509d02dc27068410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:59 +0000
Subject: [PATCH 10/35] fix: keep the lower filter to ASCII in every locale

---
 src/clean_string.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 8ed0272..93217da 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -335,8 +335,9 @@ char *clean_lower(char *filename)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        if (isupper((int) *input_walk)) {
-            *output_walk++ = tolower((int) *input_walk++);
+        // ASCII only, whatever the locale is
+        if (*input_walk >= 'A' && *input_walk <= 'Z') {
+            *output_walk++ = *input_walk++ - 'A' + 'a';
         } else {
             *output_walk++ = *input_walk++;
         }
-- 
2.43.0


From c07bcfc81941266a859d855b379199c75195dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:30 +0000
Subject: [PATCH 11/35] fix: write the transcoded characters into the
 ISO-8859-1 and CP-1252 tables

---
 bin/make-cp1252.sh    |   7 +-
 bin/make-iso8859-1.sh |   7 +-
 table/cp1252.tbl      |  54 ++++++------
 table/iso8859_1.tbl   | 188 +++++++++++++++++++++---------------------
 4 files changed, 131 insertions(+), 125 deletions(-)

diff --git a/bin/make-cp1252.sh b/bin/make-cp1252.sh
index b691fdf..7e4c037 100755
--- a/bin/make-cp1252.sh
+++ b/bin/make-cp1252.sh
@@ -4,6 +4,9 @@
 # Wikipedia which lists Unicode equivalents for CP-1252 characters.
 #
 
+# printf writes \u escapes in the encoding of the locale
+export LC_ALL=C.UTF-8
+
 PROJECT_ROOT=$(dirname "$(dirname "$(realpath "$0")")")
 TABLEPATH="$PROJECT_ROOT/table"
 
@@ -68,10 +71,10 @@ for CHAR in $CHARS ; do
 	else
 		CHECK=$(grep -c 0x"$CHAR" "$TABLE1")
 		if [ "$CHECK" -eq "1" ] ; then
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep 0x"$CHAR" "$TABLE1" | sed -e"s/^.*# //"
 		else
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep 0x"$CHAR" "$TABLE2" | sed -e"s/^.*# //"
 		fi
 	fi
diff --git a/bin/make-iso8859-1.sh b/bin/make-iso8859-1.sh
index 2b3b618..495b092 100755
--- a/bin/make-iso8859-1.sh
+++ b/bin/make-iso8859-1.sh
@@ -4,6 +4,9 @@
 # Wikipedia which lists Unicode equivalents for CP-1252 characters.
 #
 
+# printf writes \u escapes in the encoding of the locale
+export LC_ALL=C.UTF-8
+
 PROJECT_ROOT=$(dirname "$(dirname "$(realpath "$0")")")
 TABLEPATH="$PROJECT_ROOT/table"
 
@@ -130,10 +133,10 @@ for CHAR in $CHARS ; do
 	else
 		CHECK=$(grep -c 0x"$CHAR" "$TABLE1")
 		if [ "$CHECK" -eq "1" ] ; then
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep ^0x"$CHAR" "$TABLE1" | sed -e"s/^.*# //"
 		else
-			echo -n "$CURRENT_HEX		\"\\u$CHAR\"	# "
+			echo -n "$CURRENT_HEX		\"$(printf "\\u$CHAR")\"	# "
 			grep ^0x"$CHAR" "$TABLE2" | sed -e"s/^.*# //"
 		fi
 	fi
diff --git a/table/cp1252.tbl b/table/cp1252.tbl
index ef3da8d..b0c214c 100644
--- a/table/cp1252.tbl
+++ b/table/cp1252.tbl
@@ -27,38 +27,38 @@ start
 # CP-1252 Translation - 0x0080-0x009F
 #
 
-0x0080		"\u20AC"	# EURO SIGN
+0x0080		"€"	# EURO SIGN
 0x0081		"-"		# undefined, or control character
-0x0082		"\u201A"	# SINGLE LOW-9 QUOTATION MARK
-0x0083		"\u0192"	# LATIN SMALL LETTER F WITH HOOK
-0x0084		"\u201E"	# DOUBLE LOW-9 QUOTATION MARK
-0x0085		"\u2026"	# HORIZONTAL ELLIPSIS
-0x0086		"\u2020"	# DAGGER
-0x0087		"\u2021"	# DOUBLE DAGGER
-0x0088		"\u02C6"	# MODIFIER LETTER CIRCUMFLEX ACCENT
-0x0089		"\u2030"	# PER MILLE SIGN
-0x008A		"\u0160"	# LATIN CAPITAL LETTER S WITH CARON
-0x008B		"\u2039"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
-0x008C		"\u0152"	# LATIN CAPITAL LIGATURE OE
+0x0082		"‚"	# SINGLE LOW-9 QUOTATION MARK
+0x0083		"ƒ"	# LATIN SMALL LETTER F WITH HOOK
+0x0084		"„"	# DOUBLE LOW-9 QUOTATION MARK
+0x0085		"…"	# HORIZONTAL ELLIPSIS
+0x0086		"†"	# DAGGER
+0x0087		"‡"	# DOUBLE DAGGER
+0x0088		"ˆ"	# MODIFIER LETTER CIRCUMFLEX ACCENT
+0x0089		"‰"	# PER MILLE SIGN
+0x008A		"Š"	# LATIN CAPITAL LETTER S WITH CARON
+0x008B		"‹"	# SINGLE LEFT-POINTING ANGLE QUOTATION MARK
+0x008C		"Œ"	# LATIN CAPITAL LIGATURE OE
 0x008D		"-"		# undefined, or control character
-0x008E		"\u017D"	# LATIN CAPITAL LETTER Z WITH CARON
+0x008E		"Ž"	# LATIN CAPITAL LETTER Z WITH CARON
 0x008F		"-"		# undefined, or control character
 
 0x0090		"-"		# undefined, or control character
-0x0091		"\u2018"	# LEFT SINGLE QUOTATION MARK
-0x0092		"\u2019"	# RIGHT SINGLE QUOTATION MARK
-0x0093		"\u201C"	# LEFT DOUBLE QUOTATION MARK
-0x0094		"\u201D"	# RIGHT DOUBLE QUOTATION MARK
-0x0095		"\u2022"	# BULLET
-0x0096		"\u2013"	# EN DASH
-0x0097		"\u2014"	# EM DASH
-0x0098		"\u02DC"	# SMALL TILDE
-0x0099		"\u2122"	# TRADE MARK SIGN
-0x009A		"\u0161"	# LATIN SMALL LETTER S WITH CARON
-0x009B		"\u203A"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
-0x009C		"\u0153"	# LATIN SMALL LIGATURE OE
+0x0091		"‘"	# LEFT SINGLE QUOTATION MARK
+0x0092		"’"	# RIGHT SINGLE QUOTATION MARK
+0x0093		"“"	# LEFT DOUBLE QUOTATION MARK
+0x0094		"”"	# RIGHT DOUBLE QUOTATION MARK
+0x0095		"•"	# BULLET
+0x0096		"–"	# EN DASH
+0x0097		"—"	# EM DASH
+0x0098		"˜"	# SMALL TILDE
+0x0099		"™"	# TRADE MARK SIGN
+0x009A		"š"	# LATIN SMALL LETTER S WITH CARON
+0x009B		"›"	# SINGLE RIGHT-POINTING ANGLE QUOTATION MARK
+0x009C		"œ"	# LATIN SMALL LIGATURE OE
 0x009D		"-"		# undefined, or control character
-0x009E		"\u017E"	# LATIN SMALL LETTER Z WITH CARON
-0x009F		"\u0178"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
+0x009E		"ž"	# LATIN SMALL LETTER Z WITH CARON
+0x009F		"Ÿ"	# LATIN CAPITAL LETTER Y WITH DIAERESIS
 
 end
diff --git a/table/iso8859_1.tbl b/table/iso8859_1.tbl
index 05dca18..f23f665 100644
--- a/table/iso8859_1.tbl
+++ b/table/iso8859_1.tbl
@@ -26,105 +26,105 @@ start
 #
 
 0x00A0		" "		# NO-BREAK SPACE
-0x00A1		"\u00A1"	# INVERTED EXCLAMATION MARK
-0x00A2		"\u00A2"	# CENT SIGN
-0x00A3		"\u00A3"	# POUND SIGN
-0x00A4		"\u00A4"	# CURRENCY SIGN
-0x00A5		"\u00A5"	# YEN SIGN
-0x00A6		"\u00A6"	# BROKEN BAR
-0x00A7		"\u00A7"	# SECTION SIGN
-0x00A8		"\u00A8"	# DIAERESIS
-0x00A9		"\u00A9"	# COPYRIGHT SIGN
-0x00AA		"\u00AA"	# FEMININE ORDINAL INDICATOR
-0x00AB		"\u00AB"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00AC		"\u00AC"	# NOT SIGN
+0x00A1		"¡"	# INVERTED EXCLAMATION MARK
+0x00A2		"¢"	# CENT SIGN
+0x00A3		"£"	# POUND SIGN
+0x00A4		"¤"	# CURRENCY SIGN
+0x00A5		"¥"	# YEN SIGN
+0x00A6		"¦"	# BROKEN BAR
+0x00A7		"§"	# SECTION SIGN
+0x00A8		"¨"	# DIAERESIS
+0x00A9		"©"	# COPYRIGHT SIGN
+0x00AA		"ª"	# FEMININE ORDINAL INDICATOR
+0x00AB		"«"	# LEFT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00AC		"¬"	# NOT SIGN
 0x00AD		"-"		# SOFT HYPHEN
-0x00AE		"\u00AE"	# REGISTERED SIGN
-0x00AF		"\u00AF"	# MACRON
+0x00AE		"®"	# REGISTERED SIGN
+0x00AF		"¯"	# MACRON
 
-0x00B0		"\u00B0"	# DEGREE SIGN
-0x00B1		"\u00B1"	# PLUS-MINUS SIGN
-0x00B2		"\u00B2"	# SUPERSCRIPT TWO
-0x00B3		"\u00B3"	# SUPERSCRIPT THREE
-0x00B4		"\u00B4"	# ACUTE ACCENT
-0x00B5		"\u00B5"	# MICRO SIGN
-0x00B6		"\u00B6"	# PILCROW SIGN
-0x00B7		"\u00B7"	# MIDDLE DOT
-0x00B8		"\u00B8"	# CEDILLA
-0x00B9		"\u00B9"	# SUPERSCRIPT ONE
-0x00BA		"\u00BA"	# MASCULINE ORDINAL INDICATOR
-0x00BB		"\u00BB"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
-0x00BC		"\u00BC"	# VULGAR FRACTION ONE QUARTER
-0x00BD		"\u00BD"	# VULGAR FRACTION ONE HALF
-0x00BE		"\u00BE"	# VULGAR FRACTION THREE QUARTERS
-0x00BF		"\u00BF"	# INVERTED QUESTION MARK
+0x00B0		"°"	# DEGREE SIGN
+0x00B1		"±"	# PLUS-MINUS SIGN
+0x00B2		"²"	# SUPERSCRIPT TWO
+0x00B3		"³"	# SUPERSCRIPT THREE
+0x00B4		"´"	# ACUTE ACCENT
+0x00B5		"µ"	# MICRO SIGN
+0x00B6		"¶"	# PILCROW SIGN
+0x00B7		"·"	# MIDDLE DOT
+0x00B8		"¸"	# CEDILLA
+0x00B9		"¹"	# SUPERSCRIPT ONE
+0x00BA		"º"	# MASCULINE ORDINAL INDICATOR
+0x00BB		"»"	# RIGHT-POINTING DOUBLE ANGLE QUOTATION MARK
+0x00BC		"¼"	# VULGAR FRACTION ONE QUARTER
+0x00BD		"½"	# VULGAR FRACTION ONE HALF
+0x00BE		"¾"	# VULGAR FRACTION THREE QUARTERS
+0x00BF		"¿"	# INVERTED QUESTION MARK
 
-0x00C0		"\u00C0"	# LATIN CAPITAL LETTER A WITH GRAVE
-0x00C1		"\u00C1"	# LATIN CAPITAL LETTER A WITH ACUTE
-0x00C2		"\u00C2"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
-0x00C3		"\u00C3"	# LATIN CAPITAL LETTER A WITH TILDE
-0x00C4		"\u00C4"	# LATIN CAPITAL LETTER A WITH DIAERESIS
-0x00C5		"\u00C5"	# LATIN CAPITAL LETTER A WITH RING ABOVE
-0x00C6		"\u00C6"	# LATIN CAPITAL LETTER AE
-0x00C7		"\u00C7"	# LATIN CAPITAL LETTER C WITH CEDILLA
-0x00C8		"\u00C8"	# LATIN CAPITAL LETTER E WITH GRAVE
-0x00C9		"\u00C9"	# LATIN CAPITAL LETTER E WITH ACUTE
-0x00CA		"\u00CA"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
-0x00CB		"\u00CB"	# LATIN CAPITAL LETTER E WITH DIAERESIS
-0x00CC		"\u00CC"	# LATIN CAPITAL LETTER I WITH GRAVE
-0x00CD		"\u00CD"	# LATIN CAPITAL LETTER I WITH ACUTE
-0x00CE		"\u00CE"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
-0x00CF		"\u00CF"	# LATIN CAPITAL LETTER I WITH DIAERESIS
+0x00C0		"À"	# LATIN CAPITAL LETTER A WITH GRAVE
+0x00C1		"Á"	# LATIN CAPITAL LETTER A WITH ACUTE
+0x00C2		"Â"	# LATIN CAPITAL LETTER A WITH CIRCUMFLEX
+0x00C3		"Ã"	# LATIN CAPITAL LETTER A WITH TILDE
+0x00C4		"Ä"	# LATIN CAPITAL LETTER A WITH DIAERESIS
+0x00C5		"Å"	# LATIN CAPITAL LETTER A WITH RING ABOVE
+0x00C6		"Æ"	# LATIN CAPITAL LETTER AE
+0x00C7		"Ç"	# LATIN CAPITAL LETTER C WITH CEDILLA
+0x00C8		"È"	# LATIN CAPITAL LETTER E WITH GRAVE
+0x00C9		"É"	# LATIN CAPITAL LETTER E WITH ACUTE
+0x00CA		"Ê"	# LATIN CAPITAL LETTER E WITH CIRCUMFLEX
+0x00CB		"Ë"	# LATIN CAPITAL LETTER E WITH DIAERESIS
+0x00CC		"Ì"	# LATIN CAPITAL LETTER I WITH GRAVE
+0x00CD		"Í"	# LATIN CAPITAL LETTER I WITH ACUTE
+0x00CE		"Î"	# LATIN CAPITAL LETTER I WITH CIRCUMFLEX
+0x00CF		"Ï"	# LATIN CAPITAL LETTER I WITH DIAERESIS
 
-0x00D0		"\u00D0"	# LATIN CAPITAL LETTER ETH (Icelandic)
-0x00D1		"\u00D1"	# LATIN CAPITAL LETTER N WITH TILDE
-0x00D2		"\u00D2"	# LATIN CAPITAL LETTER O WITH GRAVE
-0x00D3		"\u00D3"	# LATIN CAPITAL LETTER O WITH ACUTE
-0x00D4		"\u00D4"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
-0x00D5		"\u00D5"	# LATIN CAPITAL LETTER O WITH TILDE
-0x00D6		"\u00D6"	# LATIN CAPITAL LETTER O WITH DIAERESIS
-0x00D7		"\u00D7"	# MULTIPLICATION SIGN
-0x00D8		"\u00D8"	# LATIN CAPITAL LETTER O WITH STROKE
-0x00D9		"\u00D9"	# LATIN CAPITAL LETTER U WITH GRAVE
-0x00DA		"\u00DA"	# LATIN CAPITAL LETTER U WITH ACUTE
-0x00DB		"\u00DB"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
-0x00DC		"\u00DC"	# LATIN CAPITAL LETTER U WITH DIAERESIS
-0x00DD		"\u00DD"	# LATIN CAPITAL LETTER Y WITH ACUTE
-0x00DE		"\u00DE"	# LATIN CAPITAL LETTER THORN (Icelandic)
-0x00DF		"\u00DF"	# LATIN SMALL LETTER SHARP S (German)
+0x00D0		"Ð"	# LATIN CAPITAL LETTER ETH (Icelandic)
+0x00D1		"Ñ"	# LATIN CAPITAL LETTER N WITH TILDE
+0x00D2		"Ò"	# LATIN CAPITAL LETTER O WITH GRAVE
+0x00D3		"Ó"	# LATIN CAPITAL LETTER O WITH ACUTE
+0x00D4		"Ô"	# LATIN CAPITAL LETTER O WITH CIRCUMFLEX
+0x00D5		"Õ"	# LATIN CAPITAL LETTER O WITH TILDE
+0x00D6		"Ö"	# LATIN CAPITAL LETTER O WITH DIAERESIS
+0x00D7		"×"	# MULTIPLICATION SIGN
+0x00D8		"Ø"	# LATIN CAPITAL LETTER O WITH STROKE
+0x00D9		"Ù"	# LATIN CAPITAL LETTER U WITH GRAVE
+0x00DA		"Ú"	# LATIN CAPITAL LETTER U WITH ACUTE
+0x00DB		"Û"	# LATIN CAPITAL LETTER U WITH CIRCUMFLEX
+0x00DC		"Ü"	# LATIN CAPITAL LETTER U WITH DIAERESIS
+0x00DD		"Ý"	# LATIN CAPITAL LETTER Y WITH ACUTE
+0x00DE		"Þ"	# LATIN CAPITAL LETTER THORN (Icelandic)
+0x00DF		"ß"	# LATIN SMALL LETTER SHARP S (German)
 
-0x00E0		"\u00E0"	# LATIN SMALL LETTER A WITH GRAVE
-0x00E1		"\u00E1"	# LATIN SMALL LETTER A WITH ACUTE
-0x00E2		"\u00E2"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
-0x00E3		"\u00E3"	# LATIN SMALL LETTER A WITH TILDE
-0x00E4		"\u00E4"	# LATIN SMALL LETTER A WITH DIAERESIS
-0x00E5		"\u00E5"	# LATIN SMALL LETTER A WITH RING ABOVE
-0x00E6		"\u00E6"	# LATIN SMALL LETTER AE
-0x00E7		"\u00E7"	# LATIN SMALL LETTER C WITH CEDILLA
-0x00E8		"\u00E8"	# LATIN SMALL LETTER E WITH GRAVE
-0x00E9		"\u00E9"	# LATIN SMALL LETTER E WITH ACUTE
-0x00EA		"\u00EA"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
-0x00EB		"\u00EB"	# LATIN SMALL LETTER E WITH DIAERESIS
-0x00EC		"\u00EC"	# LATIN SMALL LETTER I WITH GRAVE
-0x00ED		"\u00ED"	# LATIN SMALL LETTER I WITH ACUTE
-0x00EE		"\u00EE"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
-0x00EF		"\u00EF"	# LATIN SMALL LETTER I WITH DIAERESIS
+0x00E0		"à"	# LATIN SMALL LETTER A WITH GRAVE
+0x00E1		"á"	# LATIN SMALL LETTER A WITH ACUTE
+0x00E2		"â"	# LATIN SMALL LETTER A WITH CIRCUMFLEX
+0x00E3		"ã"	# LATIN SMALL LETTER A WITH TILDE
+0x00E4		"ä"	# LATIN SMALL LETTER A WITH DIAERESIS
+0x00E5		"å"	# LATIN SMALL LETTER A WITH RING ABOVE
+0x00E6		"æ"	# LATIN SMALL LETTER AE
+0x00E7		"ç"	# LATIN SMALL LETTER C WITH CEDILLA
+0x00E8		"è"	# LATIN SMALL LETTER E WITH GRAVE
+0x00E9		"é"	# LATIN SMALL LETTER E WITH ACUTE
+0x00EA		"ê"	# LATIN SMALL LETTER E WITH CIRCUMFLEX
+0x00EB		"ë"	# LATIN SMALL LETTER E WITH DIAERESIS
+0x00EC		"ì"	# LATIN SMALL LETTER I WITH GRAVE
+0x00ED		"í"	# LATIN SMALL LETTER I WITH ACUTE
+0x00EE		"î"	# LATIN SMALL LETTER I WITH CIRCUMFLEX
+0x00EF		"ï"	# LATIN SMALL LETTER I WITH DIAERESIS
 
-0x00F0		"\u00F0"	# LATIN SMALL LETTER ETH (Icelandic)
-0x00F1		"\u00F1"	# LATIN SMALL LETTER N WITH TILDE
-0x00F2		"\u00F2"	# LATIN SMALL LETTER O WITH GRAVE
-0x00F3		"\u00F3"	# LATIN SMALL LETTER O WITH ACUTE
-0x00F4		"\u00F4"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
-0x00F5		"\u00F5"	# LATIN SMALL LETTER O WITH TILDE
-0x00F6		"\u00F6"	# LATIN SMALL LETTER O WITH DIAERESIS
-0x00F7		"\u00F7"	# DIVISION SIGN
-0x00F8		"\u00F8"	# LATIN SMALL LETTER O WITH STROKE
-0x00F9		"\u00F9"	# LATIN SMALL LETTER U WITH GRAVE
-0x00FA		"\u00FA"	# LATIN SMALL LETTER U WITH ACUTE
-0x00FB		"\u00FB"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
-0x00FC		"\u00FC"	# LATIN SMALL LETTER U WITH DIAERESIS
-0x00FD		"\u00FD"	# LATIN SMALL LETTER Y WITH ACUTE
-0x00FE		"\u00FE"	# LATIN SMALL LETTER THORN (Icelandic)
-0x00FF		"\u00FF"	# LATIN SMALL LETTER Y WITH DIAERESIS
+0x00F0		"ð"	# LATIN SMALL LETTER ETH (Icelandic)
+0x00F1		"ñ"	# LATIN SMALL LETTER N WITH TILDE
+0x00F2		"ò"	# LATIN SMALL LETTER O WITH GRAVE
+0x00F3		"ó"	# LATIN SMALL LETTER O WITH ACUTE
+0x00F4		"ô"	# LATIN SMALL LETTER O WITH CIRCUMFLEX
+0x00F5		"õ"	# LATIN SMALL LETTER O WITH TILDE
+0x00F6		"ö"	# LATIN SMALL LETTER O WITH DIAERESIS
+0x00F7		"÷"	# DIVISION SIGN
+0x00F8		"ø"	# LATIN SMALL LETTER O WITH STROKE
+0x00F9		"ù"	# LATIN SMALL LETTER U WITH GRAVE
+0x00FA		"ú"	# LATIN SMALL LETTER U WITH ACUTE
+0x00FB		"û"	# LATIN SMALL LETTER U WITH CIRCUMFLEX
+0x00FC		"ü"	# LATIN SMALL LETTER U WITH DIAERESIS
+0x00FD		"ý"	# LATIN SMALL LETTER Y WITH ACUTE
+0x00FE		"þ"	# LATIN SMALL LETTER THORN (Icelandic)
+0x00FF		"ÿ"	# LATIN SMALL LETTER Y WITH DIAERESIS
 
 end
-- 
2.43.0


From 2030f80b37581c56d9089f49e2a9d87f217c96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:00 +0000
Subject: [PATCH 12/35] fix: write escapes that C accepts and reads back
 unchanged in escape-utf-8

---
 src/escape_utf_8.c | 70 +++++++++++++++++++++++++++-------------------
 table/c_escape.tbl | 50 ++++++++++++++++-----------------
 2 files changed, 66 insertions(+), 54 deletions(-)

diff --git a/src/escape_utf_8.c b/src/escape_utf_8.c
index 74f92a9..ea1b49d 100644
--- a/src/escape_utf_8.c
+++ b/src/escape_utf_8.c
@@ -28,12 +28,12 @@
  * Generated from c_escape.tbl
  */
 static table_row_t builtin_c_escape_rows[36] = {
-    { .key  = 0x0001, .data = "\\x01" },
-    { .key  = 0x0002, .data = "\\x02" },
-    { .key  = 0x0003, .data = "\\x03" },
-    { .key  = 0x0004, .data = "\\x04" },
-    { .key  = 0x0005, .data = "\\x05" },
-    { .key  = 0x0006, .data = "\\x06" },
+    { .key  = 0x0001, .data = "\\001" },
+    { .key  = 0x0002, .data = "\\002" },
+    { .key  = 0x0003, .data = "\\003" },
+    { .key  = 0x0004, .data = "\\004" },
+    { .key  = 0x0005, .data = "\\005" },
+    { .key  = 0x0006, .data = "\\006" },
     { .key  = 0x0007, .data = "\\a" },
     { .key  = 0x0008, .data = "\\b" },
     { .key  = 0x0009, .data = "\\t" },
@@ -41,29 +41,29 @@ static table_row_t builtin_c_escape_rows[36] = {
     { .key  = 0x000b, .data = "\\v" },
     { .key  = 0x000c, .data = "\\f" },
     { .key  = 0x000d, .data = "\\r" },
-    { .key  = 0x000e, .data = "\\x0e" },
-    { .key  = 0x000f, .data = "\\x0f" },
-    { .key  = 0x0010, .data = "\\x10" },
-    { .key  = 0x0011, .data = "\\x11" },
-    { .key  = 0x0012, .data = "\\x12" },
-    { .key  = 0x0013, .data = "\\x13" },
-    { .key  = 0x0014, .data = "\\x14" },
-    { .key  = 0x0015, .data = "\\x15" },
-    { .key  = 0x0016, .data = "\\x16" },
-    { .key  = 0x0017, .data = "\\x17" },
-    { .key  = 0x0018, .data = "\\x18" },
-    { .key  = 0x0019, .data = "\\x19" },
-    { .key  = 0x001a, .data = "\\x1a" },
-    { .key  = 0x001b, .data = "\\x1b" },
-    { .key  = 0x001c, .data = "\\x1c" },
-    { .key  = 0x001d, .data = "\\x1d" },
-    { .key  = 0x001e, .data = "\\x1e" },
-    { .key  = 0x001f, .data = "\\x1f" },
+    { .key  = 0x000e, .data = "\\016" },
+    { .key  = 0x000f, .data = "\\017" },
+    { .key  = 0x0010, .data = "\\020" },
+    { .key  = 0x0011, .data = "\\021" },
+    { .key  = 0x0012, .data = "\\022" },
+    { .key  = 0x0013, .data = "\\023" },
+    { .key  = 0x0014, .data = "\\024" },
+    { .key  = 0x0015, .data = "\\025" },
+    { .key  = 0x0016, .data = "\\026" },
+    { .key  = 0x0017, .data = "\\027" },
+    { .key  = 0x0018, .data = "\\030" },
+    { .key  = 0x0019, .data = "\\031" },
+    { .key  = 0x001a, .data = "\\032" },
+    { .key  = 0x001b, .data = "\\033" },
+    { .key  = 0x001c, .data = "\\034" },
+    { .key  = 0x001d, .data = "\\035" },
+    { .key  = 0x001e, .data = "\\036" },
+    { .key  = 0x001f, .data = "\\037" },
     { .key  = 0x0022, .data = "\\\"" },
     { .key  = 0x0027, .data = "\\'" },
     { .key  = 0x003f, .data = "\\?" },
     { .key  = 0x005c, .data = "\\\\" },
-    { .key  = 0x007f, .data = "\\x7f" },
+    { .key  = 0x007f, .data = "\\177" },
 };
 
 static table_t builtin_c_escape_table = {
@@ -85,10 +85,13 @@ static table_t builtin_c_escape_table = {
  * Generates a translation table that escapes everything not between 0x20 and
  * 0x7E (inclusive).
  *
- * For characters 0x01-0x1F and 0x7F, a \x escape sequence is used.  This could
- * be improved, e.g. use \n instead of \x0A and \t instead of \x09.
+ * For characters 0x01-0x1F and 0x7F, a named or octal escape sequence is used.
+ * A \x escape sequence would swallow any hex digit that comes after it.
  *
- * For characters 0x80-
+ * For characters 0x80-0x9F and 0xD800-0xDFFF, which C does not allow as \u
+ * escape sequences, the UTF-8 encoding is used, as octal escape sequences.
+ *
+ * For all other characters, a \u or \U escape sequence is used.
  */
 table_t *generate_c_escape_table(void)
 {
@@ -108,7 +111,16 @@ table_t *generate_c_escape_table(void)
     }
 
     for (i = 0x80; i < 0x10000; i++) {
-        snprintf(work, MAX_LENGTH, "\\u%04X", i);
+        if (i < 0xA0) {
+            snprintf(work, MAX_LENGTH, "\\%03o\\%03o", 0xC0 | (i >> 6), 0x80 | (i & 0x3F));
+        } else if (i >= 0xD800 && i <= 0xDFFF) {
+            snprintf(
+                work, MAX_LENGTH, "\\%03o\\%03o\\%03o",
+                0xE0 | (i >> 12), 0x80 | ((i >> 6) & 0x3F), 0x80 | (i & 0x3F)
+            );
+        } else {
+            snprintf(work, MAX_LENGTH, "\\u%04X", i);
+        }
         table_put(table, i, work);
     }
 
diff --git a/table/c_escape.tbl b/table/c_escape.tbl
index 7da0d85..6254dc6 100644
--- a/table/c_escape.tbl
+++ b/table/c_escape.tbl
@@ -12,12 +12,12 @@
 
 start
 
-0x01		\x01	#  SOH (start of heading)
-0x02		\x02	#  STX (start of text)
-0x03		\x03	#  ETX (end of text)
-0x04		\x04	#  EOT (end of transmission)
-0x05		\x05	#  ENQ (enquiry)
-0x06		\x06	#  ACK (acknowledge)
+0x01		\001	#  SOH (start of heading)
+0x02		\002	#  STX (start of text)
+0x03		\003	#  ETX (end of text)
+0x04		\004	#  EOT (end of transmission)
+0x05		\005	#  ENQ (enquiry)
+0x06		\006	#  ACK (acknowledge)
 0x07		\a	#  BEL '\a' (bell)
 0x08		\b	#  BS  '\b' (backspace)
 0x09		\t	#  HT  '\t' (horizontal tab)
@@ -25,24 +25,24 @@ start
 0x0b		\v	#  VT  '\v' (vertical tab)
 0x0c		\f	#  FF  '\f' (form feed)
 0x0d		\r	#  CR  '\r' (carriage ret)
-0x0e		\x0e	#  SO  (shift out)
-0x0f		\x0f	#  SI  (shift in)
-0x10		\x10	#  DLE (data link escape)
-0x11		\x11	#  DC1 (device control 1)
-0x12		\x12	#  DC2 (device control 2)
-0x13		\x13	#  DC3 (device control 3)
-0x14		\x14	#  DC4 (device control 4)
-0x15		\x15	#  NAK (negative ack.)
-0x16		\x16	#  SYN (synchronous idle)
-0x17		\x17	#  ETB (end of trans. blk)
-0x18		\x18	#  CAN (cancel)
-0x19		\x19	#  EM  (end of medium)
-0x1a		\x1a	#  SUB (substitute)
-0x1b		\x1b	#  ESC (escape)
-0x1c		\x1c	#  FS  (file separator)
-0x1d		\x1d	#  GS  (group separator)
-0x1e		\x1e	#  RS  (record separator)
-0x1f		\x1f	#  US  (unit separator)
+0x0e		\016	#  SO  (shift out)
+0x0f		\017	#  SI  (shift in)
+0x10		\020	#  DLE (data link escape)
+0x11		\021	#  DC1 (device control 1)
+0x12		\022	#  DC2 (device control 2)
+0x13		\023	#  DC3 (device control 3)
+0x14		\024	#  DC4 (device control 4)
+0x15		\025	#  NAK (negative ack.)
+0x16		\026	#  SYN (synchronous idle)
+0x17		\027	#  ETB (end of trans. blk)
+0x18		\030	#  CAN (cancel)
+0x19		\031	#  EM  (end of medium)
+0x1a		\032	#  SUB (substitute)
+0x1b		\033	#  ESC (escape)
+0x1c		\034	#  FS  (file separator)
+0x1d		\035	#  GS  (group separator)
+0x1e		\036	#  RS  (record separator)
+0x1f		\037	#  US  (unit separator)
 
 0x22		'\"'	# "
 
@@ -52,6 +52,6 @@ start
 
 0x5c		\\	# \
 
-0x7f		\x7f	#  DEL
+0x7f		\177	#  DEL
 
 end
-- 
2.43.0


From 0dc53f68800cb19235f0bf649b86435c359bfdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:06 +0000
Subject: [PATCH 13/35] fix: report an unreadable table in the table tools
 instead of crashing

---
 src/check_table.c            | 4 ++++
 src/generate_builtin_table.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/check_table.c b/src/check_table.c
index 3607c3c..93ae199 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -415,6 +415,10 @@ int main(int argc, char **argv)
     if (optind < argc) {
         printf("checking: %s\n", argv[optind]);
         table = check_table(argv[optind], use_hash);
+        if (table == NULL) {
+            fprintf(stderr, "unable to parse file: %s\n", argv[optind]);
+            return -1;
+        }
         if (builtin) {
             new_table = check_table_again(argv[optind], table);
             table_free(table);
diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index dcb03e2..e9d8d3a 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -65,6 +65,10 @@ static void generate_loader(char *filename)
     int i;
 
     hold_table = parse_table(filename);
+    if (hold_table == NULL) {
+        fprintf(stderr, "unable to parse file: %s\n", filename);
+        exit(EXIT_FAILURE);
+    }
 
     table = table_resize(hold_table, hold_table->max_key + 1, 1);
 
-- 
2.43.0


From e006cf9b5deb5aafcd085c54482c7d2013814031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:22 +0000
Subject: [PATCH 14/35] fix: count lines from the start of each config file

---
 src/config_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/config_file.c b/src/config_file.c
index 3a35b09..f08e559 100644
--- a/src/config_file.c
+++ b/src/config_file.c
@@ -74,6 +74,7 @@ config_file_t *config_file_load(options_t *main_options)
         if (file_work != NULL) {
             err = snprintf(check_config_file, MAX_PATH_LEN, "%s/.detoxrc", file_work);
             if (err < MAX_PATH_LEN) {
+                config_file_lineno = 1;
                 config_file = parse_config_file(check_config_file, config_file, main_options);
             }
         }
@@ -82,6 +83,7 @@ config_file_t *config_file_load(options_t *main_options)
         if (file_work != NULL) {
             err = snprintf(check_config_file, MAX_PATH_LEN, "%s/detox/detoxrc", file_work);
             if (err < MAX_PATH_LEN) {
+                config_file_lineno = 1;
                 config_file = parse_config_file(check_config_file, config_file, main_options);
             }
         }
-- 
2.43.0


From 3ab5d37cfb87df765efecc1492a1ecf791c27202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:09 +0000
Subject: [PATCH 15/35] fix: stop with a message when a config file's string
 can't be stored

---
 src/config_file_lex.c | 61 ++++++++++++++++++++++---------------------
 src/config_file_lex.l |  5 ++--
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index b3f4c70..07ac578 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -556,11 +556,12 @@ char *yytext;
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
-#line 563 "config_file_lex.c"
 #line 564 "config_file_lex.c"
+#line 565 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -777,10 +778,10 @@ YY_DECL
 		}
 
 	{
-#line 20 "config_file_lex.l"
+#line 21 "config_file_lex.l"
 
 
-#line 784 "config_file_lex.c"
+#line 785 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -839,101 +840,101 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 22 "config_file_lex.l"
+#line 23 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 24 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 26 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 28 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 30 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 30 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 32 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 42 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 44 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 45 "config_file_lex.l"
+#line 46 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -945,15 +946,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 56 "config_file_lex.l"
+#line 57 "config_file_lex.l"
 {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 61 "config_file_lex.l"
+#line 62 "config_file_lex.l"
 {
     yylval.nvalue = atoi(yytext);
     return NVALUE;
@@ -961,15 +962,15 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 66 "config_file_lex.l"
+#line 67 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 ECHO;
 	YY_BREAK
-#line 973 "config_file_lex.c"
+#line 974 "config_file_lex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1974,6 +1975,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 68 "config_file_lex.l"
+#line 69 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index f38ed29..2dc6a9e 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -10,6 +10,7 @@
 
 #include "config_file_yacc.h"
 #include "config_file.h"
+#include "wrapped.h"
 
 int config_file_lineno = 1;
 
@@ -43,7 +44,7 @@ wipeup             { return WIPEUP; }
 [}]     { return CLOSE; }
 
 \"[^\"\n]*[\"\n] {
-    yylval.string = strdup(yytext+1);
+    yylval.string = wrapped_strdup(yytext+1);
     if (yylval.string[yyleng-2] != '"') {
         printf("Unterminated character string\n");
     }
@@ -54,7 +55,7 @@ wipeup             { return WIPEUP; }
 }
 
 [a-zA-Z][a-zA-Z0-9_]* {
-    yylval.string = strdup(yytext);
+    yylval.string = wrapped_strdup(yytext);
     return ID;
 }
 
-- 
2.43.0


From cd40fe7f2a9f7ab49d031e9f0dab7923af65f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:25 +0000
Subject: [PATCH 16/35] fix: do not rename when it is unknown whether the new
 name is taken

---
 src/file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/file.c b/src/file.c
index e1ecfd8..208538f 100644
--- a/src/file.c
+++ b/src/file.c
@@ -147,6 +147,11 @@ char *parse_file(char *filename, options_t *options)
             free(new_filename);
             return old_filename;
         }
+    } else if (errno != ENOENT) { // Can't tell whether there is a new file
+        fprintf(stderr, "Cannot rename %s to %s: %s\n", old_filename, new_filename, strerror(errno));
+
+        free(new_filename);
+        return old_filename;
     }
 
     if (options->verbose || options->dry_run) {
-- 
2.43.0


From c1dc98e0bca933e3c3f3bf9e740ccfb4590d549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 17/35] fix: announce a rename only once it has been done

---
 src/file.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/file.c b/src/file.c
index 208538f..38b6a43 100644
--- a/src/file.c
+++ b/src/file.c
@@ -154,11 +154,8 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
-    if (options->verbose || options->dry_run) {
-        printf("%s -> %s\n", old_filename, new_filename);
-    }
-
     if (options->dry_run) {
+        printf("%s -> %s\n", old_filename, new_filename);
         free(new_filename);
         return old_filename;
     }
@@ -170,6 +167,10 @@ char *parse_file(char *filename, options_t *options)
         return old_filename;
     }
 
+    if (options->verbose) {
+        printf("%s -> %s\n", old_filename, new_filename);
+    }
+
     free(old_filename);
 
     return new_filename;
-- 
2.43.0


From 7fd99e50b0f357594982cc58ad6e0f7aafb11a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:37 +0000
Subject: [PATCH 18/35] fix: clean a long inline line that ends in a period
 after a full buffer

---
 src/file.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index 38b6a43..beecafe 100644
--- a/src/file.c
+++ b/src/file.c
@@ -280,6 +280,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
     char *work;
     int err;
     int has_newline;
+    int line_start;
     int remaining;
 
     if (in_filename != NULL) {
@@ -303,6 +304,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
     buf_size = INLINE_BUF_SIZE;
     padding = INLINE_BUF_PADDING;
     base = wrapped_malloc(buf_size);
+    line_start = 1;
 
     while (fgets(base, buf_size - padding, in_fp)) {
 
@@ -419,7 +421,8 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
 
         work = wrapped_strdup(base);
 
-        if (is_protected(work)) {
+        // the tail of a long line isn't a filename
+        if (line_start && is_protected(work)) {
             work = NULL;
         }
 
@@ -444,6 +447,8 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         if (has_newline) {
             fprintf(out_fp, "\n");
         }
+
+        line_start = has_newline;
     }
 
     if (in_filename != NULL) {
-- 
2.43.0


From 3898117937b06089b685c671019ce90a82d5dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:05 +0000
Subject: [PATCH 19/35] fix: read config files below a long HOME or
 XDG_CONFIG_HOME

---
 src/detox_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detox_struct.h b/src/detox_struct.h
index 0df2647..3f57fae 100644
--- a/src/detox_struct.h
+++ b/src/detox_struct.h
@@ -12,7 +12,7 @@
 
 #include <stdlib.h>
 
-#define MAX_PATH_LEN 256
+#define MAX_PATH_LEN 4096
 
 enum {
     FILTER_ISO8859_1 = 1,
-- 
2.43.0


From d9c9ab66e71afc4d6b79eb20abbc31773af95320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:45 +0000
Subject: [PATCH 20/35] fix: refuse a translation table that cannot be read

---
 src/parse_table.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parse_table.c b/src/parse_table.c
index 5dd4a49..9fb8055 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -200,6 +200,14 @@ table_t *parse_table(char *filename)
 
     free(work);
     free(parsed);
+
+    if (ferror(table_file)) {
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(errno));
+        table_free(table);
+        fclose(table_file);
+        return NULL;
+    }
+
     fclose(table_file);
 
     return table;
-- 
2.43.0


From 2d9dfdb7efac9b757a02005b1c0ba63042f88a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:40 +0000
Subject: [PATCH 21/35] fix: treat an unterminated string in a config file as a
 syntax error

---
 src/config_file_lex.c | 56 +++++++++++++++++++++----------------------
 src/config_file_lex.l | 10 ++++----
 2 files changed, 33 insertions(+), 33 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 07ac578..92cdc32 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -560,8 +560,10 @@ char *yytext;
 
 int config_file_lineno = 1;
 
-#line 564 "config_file_lex.c"
-#line 565 "config_file_lex.c"
+extern void yyerror(char *s);
+
+#line 566 "config_file_lex.c"
+#line 567 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -778,10 +780,10 @@ YY_DECL
 		}
 
 	{
-#line 21 "config_file_lex.l"
+#line 23 "config_file_lex.l"
 
 
-#line 785 "config_file_lex.c"
+#line 787 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -840,107 +842,105 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 23 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 25 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 27 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 30 "config_file_lex.l"
+#line 32 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 42 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 41 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 45 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 44 "config_file_lex.l"
+#line 46 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 46 "config_file_lex.l"
+#line 48 "config_file_lex.l"
 {
     yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
-    }
-    else {
-        yylval.string[yyleng-2] = '\0';
+    if (yytext[yyleng-1] != '"') {
+        yyerror("unterminated character string");
     }
+    yylval.string[yyleng-2] = '\0';
     return QSTRING;
 }
 	YY_BREAK
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 2dc6a9e..8e6bac0 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -14,6 +14,8 @@
 
 int config_file_lineno = 1;
 
+extern void yyerror(char *s);
+
 %}
 
 %option noyywrap
@@ -45,12 +47,10 @@ wipeup             { return WIPEUP; }
 
 \"[^\"\n]*[\"\n] {
     yylval.string = wrapped_strdup(yytext+1);
-    if (yylval.string[yyleng-2] != '"') {
-        printf("Unterminated character string\n");
-    }
-    else {
-        yylval.string[yyleng-2] = '\0';
+    if (yytext[yyleng-1] != '"') {
+        yyerror("unterminated character string");
     }
+    yylval.string[yyleng-2] = '\0';
     return QSTRING;
 }
 
-- 
2.43.0


From c3f16d01958d77810555d73d7b5799379e934c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:04 +0000
Subject: [PATCH 22/35] fix: report an empty default as none in check-table

---
 src/check_table.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/check_table.c b/src/check_table.c
index 93ae199..0704d28 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -141,6 +141,8 @@ static table_t *check_table(char *filename, int use_hash)
                     continue;
                 }
 
+                parsed[0] = '\0';
+
                 if (work[offset] == '"') {
                     sscanf(work + offset + 1, "%[^\"]", parsed);
                 } else if (work[offset] == '\'') {
@@ -149,7 +151,8 @@ static table_t *check_table(char *filename, int use_hash)
                     sscanf(work + offset, "%s", parsed);
                 }
 
-                table->default_translation = wrapped_strdup(parsed);
+                // an empty default means that there isn't one
+                table->default_translation = (parsed[0] == '\0') ? NULL : wrapped_strdup(parsed);
 
                 if (strlen(parsed) > check_max_data_length) {
                     check_max_data_length = strlen(parsed);
-- 
2.43.0


From 539962bc26af0eba32e2b04312ab23d4d699d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:41 +0000
Subject: [PATCH 23/35] fix: escape the default in the code of
 generate-builtin-table

---
 src/generate_builtin_table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index e9d8d3a..54fff80 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -135,7 +135,7 @@ static void generate_loader(char *filename)
     } else {
         printf(
             "    .default_translation = \"%s\",\n",
-            table->default_translation
+            escape_string(table->default_translation)
         );
     }
 
-- 
2.43.0


From 8836563fc57a64ad7aaf81db70679a809ad0bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 24/35] fix: accept a code that appears again in check-table -b

---
 src/check_table.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/check_table.c b/src/check_table.c
index 0704d28..09d389a 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -252,6 +252,7 @@ static table_t *check_table_again(char *filename, table_t *source)
     int ret;
     int state;
     char *check;
+    char *wanted;
 
     table_t *table;
 
@@ -359,8 +360,11 @@ static table_t *check_table_again(char *filename, table_t *source)
             sscanf(work + offset, "%s", parsed);
         }
 
+        // a later row for the same code may have replaced this one
+        wanted = table_get(source, code);
+
         check = table_get(table, code);
-        if (check == NULL || strcmp(parsed, check) != 0) {
+        if (check == NULL || wanted == NULL || strcmp(wanted, check) != 0) {
             fprintf(stderr, "Failed to retrieve row 0x%04x \"%s\" in resized translation table\n", code, parsed);
             table_free(table);
             fclose(table_file);
-- 
2.43.0


From 82a3d1c542231f8cc52194ba4a2808ac0408c7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:45 +0000
Subject: [PATCH 25/35] fix: escape carriage returns in the code of
 generate-builtin-table

---
 src/generate_builtin_table.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index 54fff80..90adba4 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -48,6 +48,13 @@ static char *escape_string(char *in)
                 *work++ = *in++;
                 break;
 
+            case '\r':
+                // the compiler takes it for the end of the line
+                *work++ = '\\';
+                *work++ = 'r';
+                in++;
+                break;
+
             default:
                 *work++ = *in++;
                 break;
-- 
2.43.0


From 1d072f875a836cc7034c933bccd75846ac87332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:01 +0000
Subject: [PATCH 26/35] fix: do not write behind a string with a NUL in a
 config file

---
 src/config_file_lex.c | 2 +-
 src/config_file_lex.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 92cdc32..29d334b 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -940,7 +940,7 @@ YY_RULE_SETUP
     if (yytext[yyleng-1] != '"') {
         yyerror("unterminated character string");
     }
-    yylval.string[yyleng-2] = '\0';
+    yylval.string[strcspn(yylval.string, "\"")] = '\0';
     return QSTRING;
 }
 	YY_BREAK
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index 8e6bac0..a43df92 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -50,7 +50,7 @@ wipeup             { return WIPEUP; }
     if (yytext[yyleng-1] != '"') {
         yyerror("unterminated character string");
     }
-    yylval.string[yyleng-2] = '\0';
+    yylval.string[strcspn(yylval.string, "\"")] = '\0';
     return QSTRING;
 }
 
-- 
2.43.0


From d879f15476d49c23391f87c7ce00cab3ba1fb1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:08 +0000
Subject: [PATCH 27/35] fix: do not wrap around large lengths in a config file

---
 src/config_file_lex.c | 63 ++++++++++++++++++++++---------------------
 src/config_file_lex.l |  5 +++-
 2 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/src/config_file_lex.c b/src/config_file_lex.c
index 29d334b..9df8f80 100644
--- a/src/config_file_lex.c
+++ b/src/config_file_lex.c
@@ -554,6 +554,8 @@ char *yytext;
  * file that was distributed with this source code.
  */
 
+#include <limits.h>
+
 #include "config_file_yacc.h"
 #include "config_file.h"
 #include "wrapped.h"
@@ -562,8 +564,8 @@ int config_file_lineno = 1;
 
 extern void yyerror(char *s);
 
-#line 566 "config_file_lex.c"
-#line 567 "config_file_lex.c"
+#line 568 "config_file_lex.c"
+#line 569 "config_file_lex.c"
 
 #define INITIAL 0
 
@@ -780,10 +782,10 @@ YY_DECL
 		}
 
 	{
-#line 23 "config_file_lex.l"
+#line 25 "config_file_lex.l"
 
 
-#line 787 "config_file_lex.c"
+#line 789 "config_file_lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -842,99 +844,99 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 25 "config_file_lex.l"
+#line 27 "config_file_lex.l"
 { /* ignore whitespace */ }
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 27 "config_file_lex.l"
+#line 29 "config_file_lex.l"
 { /* ignore comments */ }
 	YY_BREAK
 case 3:
 /* rule 3 can match eol */
 YY_RULE_SETUP
-#line 29 "config_file_lex.l"
+#line 31 "config_file_lex.l"
 { config_file_lineno++; }
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 31 "config_file_lex.l"
+#line 33 "config_file_lex.l"
 { return BUILTIN; }
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 32 "config_file_lex.l"
+#line 34 "config_file_lex.l"
 { return FILENAME; }
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 33 "config_file_lex.l"
+#line 35 "config_file_lex.l"
 { return IGNORE; }
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 34 "config_file_lex.l"
+#line 36 "config_file_lex.l"
 { return ISO8859_1; }
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 35 "config_file_lex.l"
+#line 37 "config_file_lex.l"
 { return LENGTH; }
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 36 "config_file_lex.l"
+#line 38 "config_file_lex.l"
 { return LOWER; }
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 37 "config_file_lex.l"
+#line 39 "config_file_lex.l"
 { return MAX_LENGTH; }
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 38 "config_file_lex.l"
+#line 40 "config_file_lex.l"
 { return REMOVE_TRAILING; }
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 39 "config_file_lex.l"
+#line 41 "config_file_lex.l"
 { return SAFE; }
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 40 "config_file_lex.l"
+#line 42 "config_file_lex.l"
 { return SEQUENCE; }
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 41 "config_file_lex.l"
+#line 43 "config_file_lex.l"
 { return UNCGI; }
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 42 "config_file_lex.l"
+#line 44 "config_file_lex.l"
 { return UTF_8; }
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 43 "config_file_lex.l"
+#line 45 "config_file_lex.l"
 { return WIPEUP; }
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 45 "config_file_lex.l"
+#line 47 "config_file_lex.l"
 { return OPEN; }
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 46 "config_file_lex.l"
+#line 48 "config_file_lex.l"
 { return CLOSE; }
 	YY_BREAK
 case 19:
 /* rule 19 can match eol */
 YY_RULE_SETUP
-#line 48 "config_file_lex.l"
+#line 50 "config_file_lex.l"
 {
     yylval.string = wrapped_strdup(yytext+1);
     if (yytext[yyleng-1] != '"') {
@@ -946,7 +948,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 57 "config_file_lex.l"
+#line 59 "config_file_lex.l"
 {
     yylval.string = wrapped_strdup(yytext);
     return ID;
@@ -954,23 +956,24 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 62 "config_file_lex.l"
+#line 64 "config_file_lex.l"
 {
-    yylval.nvalue = atoi(yytext);
+    long value = strtol(yytext, NULL, 10);
+    yylval.nvalue = value > INT_MAX ? INT_MAX : (int) value;
     return NVALUE;
 }
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 67 "config_file_lex.l"
+#line 70 "config_file_lex.l"
 { return EOL; }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 69 "config_file_lex.l"
+#line 72 "config_file_lex.l"
 ECHO;
 	YY_BREAK
-#line 974 "config_file_lex.c"
+#line 977 "config_file_lex.c"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -1975,6 +1978,6 @@ void yyfree (void * ptr )
 
 #define YYTABLES_NAME "yytables"
 
-#line 69 "config_file_lex.l"
+#line 72 "config_file_lex.l"
 
 
diff --git a/src/config_file_lex.l b/src/config_file_lex.l
index a43df92..37ba5b9 100644
--- a/src/config_file_lex.l
+++ b/src/config_file_lex.l
@@ -8,6 +8,8 @@
  * file that was distributed with this source code.
  */
 
+#include <limits.h>
+
 #include "config_file_yacc.h"
 #include "config_file.h"
 #include "wrapped.h"
@@ -60,7 +62,8 @@ wipeup             { return WIPEUP; }
 }
 
 [0-9]+ {
-    yylval.nvalue = atoi(yytext);
+    long value = strtol(yytext, NULL, 10);
+    yylval.nvalue = value > INT_MAX ? INT_MAX : (int) value;
     return NVALUE;
 }
 
-- 
2.43.0


From f8c3140cfe6296f5f1f562175c21c17c43531a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:32 +0000
Subject: [PATCH 28/35] fix: size the table of generate-builtin-table by its
 rows, not by its largest key

---
 src/generate_builtin_table.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index 90adba4..1544ad4 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -65,6 +65,14 @@ static char *escape_string(char *in)
     return ret;
 }
 
+static int compare_rows(const void *a, const void *b)
+{
+    int left = ((const table_row_t *) a)->key;
+    int right = ((const table_row_t *) b)->key;
+
+    return (left > right) - (left < right);
+}
+
 static void generate_loader(char *filename)
 {
     table_t *table;
@@ -77,7 +85,8 @@ static void generate_loader(char *filename)
         exit(EXIT_FAILURE);
     }
 
-    table = table_resize(hold_table, hold_table->max_key + 1, 1);
+    table = table_resize(hold_table, hold_table->length, 1);
+    qsort(table->rows, table->length, sizeof(table_row_t), compare_rows);
 
     printf(
         "\n"
-- 
2.43.0


From 89dfe92eb3226839f5519687a206f914ea02a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 29/35] fix: do not take the rest of a long line in a table for
 another row

---
 src/check_table.c | 24 ++++++++++++++++++++++++
 src/parse_table.c | 22 ++++++++++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/src/check_table.c b/src/check_table.c
index 09d389a..ddc7371 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -32,6 +32,26 @@ enum {
     INSIDE_STATE
 };
 
+/**
+ * Skips the rest of a line that didn't fit into the buffer.
+ *
+ * @param work   The buffer, as filled by fgets().
+ * @param length The size of the buffer.
+ * @param file   The file that is being read.
+ */
+static void skip_rest_of_line(const char *work, size_t length, FILE *file)
+{
+    int c;
+
+    if (strlen(work) < length - 1 || work[length - 2] == '\n') {
+        return;
+    }
+
+    do {
+        c = fgetc(file);
+    } while (c != '\n' && c != EOF);
+}
+
 static table_t *check_table(char *filename, int use_hash)
 {
     FILE *table_file;
@@ -95,6 +115,8 @@ static table_t *check_table(char *filename, int use_hash)
     state = BASE_STATE;
 
     while (fgets(work, 1024, table_file) != NULL) {
+        skip_rest_of_line(work, 1024, table_file);
+
         if (*work == '#') {
 
             /*
@@ -282,6 +304,8 @@ static table_t *check_table_again(char *filename, table_t *source)
     state = BASE_STATE;
 
     while (fgets(work, 1024, table_file) != NULL) {
+        skip_rest_of_line(work, 1024, table_file);
+
         if (*work == '#') {
 
             /*
diff --git a/src/parse_table.c b/src/parse_table.c
index 9fb8055..b3e722c 100644
--- a/src/parse_table.c
+++ b/src/parse_table.c
@@ -25,6 +25,26 @@ enum {
     INSIDE_STATE
 };
 
+/**
+ * Skips the rest of a line that didn't fit into the buffer.
+ *
+ * @param work   The buffer, as filled by fgets().
+ * @param length The size of the buffer.
+ * @param file   The file that is being read.
+ */
+static void skip_rest_of_line(const char *work, size_t length, FILE *file)
+{
+    int c;
+
+    if (strlen(work) < length - 1 || work[length - 2] == '\n') {
+        return;
+    }
+
+    do {
+        c = fgetc(file);
+    } while (c != '\n' && c != EOF);
+}
+
 table_t *parse_table(char *filename)
 {
     FILE *table_file;
@@ -85,6 +105,8 @@ table_t *parse_table(char *filename)
     state = BASE_STATE;
 
     while (fgets(work, 1024, table_file) != NULL) {
+        skip_rest_of_line(work, 1024, table_file);
+
         if (*work == '#') {
 
             /*
-- 
2.43.0


From f34926d98dad3954d2a803f4ce2bbb4d9e808f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 30/35] fix: end with a failure status when output cannot be
 written

---
 src/check_table.c            |  2 ++
 src/detox.c                  |  3 +++
 src/escape_utf_8.c           |  2 ++
 src/generate_builtin_table.c |  2 ++
 src/wrapped.c                | 18 ++++++++++++++++++
 src/wrapped.h                |  1 +
 6 files changed, 28 insertions(+)

diff --git a/src/check_table.c b/src/check_table.c
index ddc7371..d705bed 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -415,6 +415,8 @@ int main(int argc, char **argv)
     int use_hash = 1;
     int verbose = 0;
 
+    watch_stdout();
+
     while ((optcode = getopt(argc, argv, "bdlhv")) != -1) {
         switch (optcode) {
             case 'b': // simulate a builtin table
diff --git a/src/detox.c b/src/detox.c
index 111ad8e..2a75f7c 100644
--- a/src/detox.c
+++ b/src/detox.c
@@ -21,6 +21,7 @@
 #include "filelist.h"
 #include "parse_options.h"
 #include "sequence.h"
+#include "wrapped.h"
 
 int main(int argc, char **argv)
 {
@@ -33,6 +34,8 @@ int main(int argc, char **argv)
     char *file_work = NULL;
     char *file_walk;
 
+    watch_stdout();
+
     main_options = parse_options_getopt(argc, argv);
 
     if (main_options == NULL) {
diff --git a/src/escape_utf_8.c b/src/escape_utf_8.c
index ea1b49d..d47ba32 100644
--- a/src/escape_utf_8.c
+++ b/src/escape_utf_8.c
@@ -151,6 +151,8 @@ int main(void)
     sequence_t *sequence;
     filter_t *filter;
 
+    watch_stdout();
+
     table = generate_c_escape_table();
 
     options = options_init();
diff --git a/src/generate_builtin_table.c b/src/generate_builtin_table.c
index 1544ad4..57f34c2 100644
--- a/src/generate_builtin_table.c
+++ b/src/generate_builtin_table.c
@@ -172,6 +172,8 @@ static void generate_loader(char *filename)
 
 int main(int argc, char **argv)
 {
+    watch_stdout();
+
     if (argc == 1) {
         fprintf(stderr, "please specify a file to operate on\n");
         return -1;
diff --git a/src/wrapped.c b/src/wrapped.c
index c4ab3ed..e365ef7 100644
--- a/src/wrapped.c
+++ b/src/wrapped.c
@@ -13,6 +13,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#include <unistd.h>
 
 #include "wrapped.h"
 
@@ -66,3 +67,20 @@ char *wrapped_strdup(const char *s)
 
     return ret;
 }
+
+static void check_stdout(void)
+{
+    if (fflush(stdout) != 0 || ferror(stdout)) {
+        fprintf(stderr, "detox: unable to write all of the output\n");
+        _exit(EXIT_FAILURE);
+    }
+}
+
+/**
+ * Makes the program end with a failure status if some of its output could not
+ * be written.
+ */
+void watch_stdout(void)
+{
+    atexit(check_stdout);
+}
diff --git a/src/wrapped.h b/src/wrapped.h
index e3b619d..1b3cf51 100644
--- a/src/wrapped.h
+++ b/src/wrapped.h
@@ -19,5 +19,6 @@ extern int wrapped_strdup_failure;
 
 extern void *wrapped_malloc(size_t size);
 extern char *wrapped_strdup(const char *s);
+extern void watch_stdout(void);
 
 #endif /* __WRAPPED_H */
-- 
2.43.0


From e6a9b86832981557eb27cbcd74987ff7ea2ddfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:35 +0000
Subject: [PATCH 31/35] fix: refuse a table that check-table cannot read

---
 src/check_table.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/check_table.c b/src/check_table.c
index d705bed..7cff923 100644
--- a/src/check_table.c
+++ b/src/check_table.c
@@ -258,6 +258,14 @@ static table_t *check_table(char *filename, int use_hash)
 
     free(work);
     free(parsed);
+
+    if (ferror(table_file)) {
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(errno));
+        table_free(table);
+        fclose(table_file);
+        return NULL;
+    }
+
     fclose(table_file);
 
     return table;
@@ -400,6 +408,14 @@ static table_t *check_table_again(char *filename, table_t *source)
 
     free(work);
     free(parsed);
+
+    if (ferror(table_file)) {
+        fprintf(stderr, "Unable to read translation table: %s\n", strerror(errno));
+        table_free(table);
+        fclose(table_file);
+        return NULL;
+    }
+
     fclose(table_file);
 
     return table;
@@ -458,13 +474,14 @@ int main(int argc, char **argv)
             table = new_table;
             new_table = NULL;
         }
-        if (table) {
-            if (dump) {
-                table_dump(table, verbose);
-            }
-            table_stats(table);
-            table_free(table);
+        if (table == NULL) {
+            return -1;
+        }
+        if (dump) {
+            table_dump(table, verbose);
         }
+        table_stats(table);
+        table_free(table);
     } else {
         printf("please specify a file to operate on\n");
         return -1;
-- 
2.43.0


From 10b47981435fb6a959265d7eff594bd4cd1133aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 32/35] fix: report an inline input that cannot be read to its
 end

---
 src/file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file.c b/src/file.c
index beecafe..69e2226 100644
--- a/src/file.c
+++ b/src/file.c
@@ -451,6 +451,10 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
         line_start = has_newline;
     }
 
+    if (ferror(in_fp)) {
+        fprintf(stderr, "%s: %s\n", in_filename != NULL ? in_filename : "stdin", strerror(errno));
+    }
+
     if (in_filename != NULL) {
         fclose(in_fp);
     }
-- 
2.43.0


From bc332c930b73bdb204be149b40cd47a5ab1cb86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 33/35] fix: report entries that cannot be examined and
 directories that cannot be read

---
 src/file.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/file.c b/src/file.c
index 69e2226..e2836fa 100644
--- a/src/file.c
+++ b/src/file.c
@@ -66,6 +66,18 @@ static int is_protected(const char *filename)
     return (filename[0] == '.' && (filename[1] == '\0' || (filename[1] == '.' && filename[2] == '\0')));
 }
 
+/**
+ * Reports a file that could not be examined, unless it is gone.
+ *
+ * @param filename The file that lstat() failed for
+ */
+static void report_lstat_failure(const char *filename)
+{
+    if (errno != ENOENT) {
+        fprintf(stderr, "%s: %s\n", filename, strerror(errno));
+    }
+}
+
 /*
  * Renames file to a safe filename.
  */
@@ -133,6 +145,7 @@ char *parse_file(char *filename, options_t *options)
 
     err = lstat(old_filename, &stat_info_old);
     if (err == -1) {
+        report_lstat_failure(old_filename);
         free(new_filename);
         return old_filename;
     }
@@ -191,6 +204,7 @@ void parse_dir(char *filename, options_t *options)
 
     err = lstat(filename, &stat_info);
     if (err == -1) {
+        report_lstat_failure(filename);
         return;
     }
 
@@ -224,6 +238,8 @@ void parse_dir(char *filename, options_t *options)
      */
     entries = filelist_init();
 
+    errno = 0;
+
     while ((dir_entry = readdir(dir_handle)) != NULL) {
         /*
          * Check for files that need to be ignored
@@ -231,6 +247,12 @@ void parse_dir(char *filename, options_t *options)
         if (!ignore_file(dir_entry->d_name, options)) {
             filelist_put(entries, dir_entry->d_name);
         }
+
+        errno = 0;
+    }
+
+    if (errno != 0) {
+        fprintf(stderr, "%s: %s\n", filename, strerror(errno));
     }
 
     closedir(dir_handle);
@@ -240,6 +262,7 @@ void parse_dir(char *filename, options_t *options)
 
         err = lstat(new_file, &stat_info);
         if (err == -1) {
+            report_lstat_failure(new_file);
             continue;
         }
 
-- 
2.43.0


From 5797b8c4cf073097ad597108638d2414d877db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:18 +0000
Subject: [PATCH 34/35] fix: free the names that are left alone because they
 are . or ..

---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index e2836fa..ce468b4 100644
--- a/src/file.c
+++ b/src/file.c
@@ -110,6 +110,7 @@ char *parse_file(char *filename, options_t *options)
     work = wrapped_strdup(old_filename_ptr);
 
     if (is_protected(work)) {
+        free(work);
         work = NULL;
     }
 
@@ -446,6 +447,7 @@ void parse_inline(char *in_filename, char *out_filename, options_t *options)
 
         // the tail of a long line isn't a filename
         if (line_start && is_protected(work)) {
+            free(work);
             work = NULL;
         }
 
-- 
2.43.0


From 89c3c7356d8db260e65ba2fa05f16b46f7adf445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:32 +0000
Subject: [PATCH 35/35] fix: look up bytes above 0x7F in a safe table as what
 they are

---
 src/clean_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clean_string.c b/src/clean_string.c
index 93217da..69eedb8 100644
--- a/src/clean_string.c
+++ b/src/clean_string.c
@@ -106,7 +106,7 @@ char *clean_safe(char *filename, table_t *table)
     output_walk = output;
 
     while (*input_walk != '\0') {
-        replace_walk = table_get(table, *input_walk);
+        replace_walk = table_get(table, (unsigned char) *input_walk);
         if (replace_walk == NULL) {
             if (table->default_translation == NULL) {
 
-- 
2.43.0

