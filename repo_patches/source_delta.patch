From 92269b4e91ea681932b87da6e41a6e1918a4ed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 01/47] fix: lib: report Xapian exceptions when reading message
 properties

The property getters let a Xapian exception raised while the message
metadata is loaded propagate to the (C) caller.
---
 lib/message-property.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/message-property.cc b/lib/message-property.cc
index 7f52034..5f4bcb3 100644
--- a/lib/message-property.cc
+++ b/lib/message-property.cc
@@ -45,7 +45,12 @@ notmuch_message_get_property (notmuch_message_t *message, const char *key, const
     if (! value)
 	return NOTMUCH_STATUS_NULL_POINTER;
 
-    *value = _notmuch_string_map_get (_notmuch_message_property_map (message), key);
+    try {
+	*value = _notmuch_string_map_get (_notmuch_message_property_map (message), key);
+    } catch (Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 
     return NOTMUCH_STATUS_SUCCESS;
 }
@@ -58,7 +63,12 @@ notmuch_message_count_properties (notmuch_message_t *message, const char *key, u
 
     notmuch_string_map_t *map;
 
-    map = _notmuch_message_property_map (message);
+    try {
+	map = _notmuch_message_property_map (message);
+    } catch (Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
     if (! map)
 	return NOTMUCH_STATUS_NULL_POINTER;
 
@@ -179,7 +189,12 @@ notmuch_message_get_properties (notmuch_message_t *message, const char *key, not
 {
     notmuch_string_map_t *map;
 
-    map = _notmuch_message_property_map (message);
+    try {
+	map = _notmuch_message_property_map (message);
+    } catch (Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NULL;
+    }
     return _notmuch_string_map_iterator_create (map, key, exact);
 }
 
-- 
2.43.0


From 93c3de3d40c9c7c0aaccc07d626c4638fe115a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 02/47] fix: lib: report Xapian exceptions when changing
 message properties

Only the term change was protected; an exception raised while the
document is written back escaped to the caller.
---
 lib/message-property.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/message-property.cc b/lib/message-property.cc
index 5f4bcb3..f5f5ab6 100644
--- a/lib/message-property.cc
+++ b/lib/message-property.cc
@@ -120,8 +120,14 @@ _notmuch_message_modify_property (notmuch_message_t *message, const char *key, c
     if (private_status)
 	return COERCE_STATUS (private_status,
 			      "Unhandled error modifying message property");
-    if (! _notmuch_message_frozen (message))
-	_notmuch_message_sync (message);
+
+    try {
+	if (! _notmuch_message_frozen (message))
+	    _notmuch_message_sync (message);
+    } catch (Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 
     if (term)
 	talloc_free (term);
@@ -161,14 +167,14 @@ _notmuch_message_remove_all_properties (notmuch_message_t *message, const char *
     try {
 	/* XXX better error reporting ? */
 	_notmuch_message_remove_terms (message, term_prefix);
+
+	if (! _notmuch_message_frozen (message))
+	    _notmuch_message_sync (message);
     } catch (Xapian::Error &error) {
 	LOG_XAPIAN_EXCEPTION (message, error);
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
 
-    if (! _notmuch_message_frozen (message))
-	_notmuch_message_sync (message);
-
     return NOTMUCH_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From c4576e2ef4998d81ec66596e2417ab66c35d8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 03/47] fix: lib: report Xapian exceptions from thaw and
 remove_all_tags

Both write the document back without handling the exceptions the
backend may raise, unlike add_tag and remove_tag.
---
 lib/message.cc | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index 46638f8..c16cd5e 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2121,21 +2121,26 @@ notmuch_message_remove_all_tags (notmuch_message_t *message)
     if (! tags)
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
 
-    for (;
-	 notmuch_tags_valid (tags);
-	 notmuch_tags_move_to_next (tags)) {
-	tag = notmuch_tags_get (tags);
-
-	private_status = _notmuch_message_remove_term (message, "tag", tag);
-	if (private_status) {
-	    return COERCE_STATUS (private_status,
-				  "_notmuch_message_remove_term return unexpected value: %d\n",
-				  private_status);
+    try {
+	for (;
+	     notmuch_tags_valid (tags);
+	     notmuch_tags_move_to_next (tags)) {
+	    tag = notmuch_tags_get (tags);
+
+	    private_status = _notmuch_message_remove_term (message, "tag", tag);
+	    if (private_status) {
+		return COERCE_STATUS (private_status,
+				      "_notmuch_message_remove_term return unexpected value: %d\n",
+				      private_status);
+	    }
 	}
-    }
 
-    if (! message->frozen)
-	_notmuch_message_sync (message);
+	if (! message->frozen)
+	    _notmuch_message_sync (message);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 
     talloc_free (tags);
     return NOTMUCH_STATUS_SUCCESS;
@@ -2166,8 +2171,13 @@ notmuch_message_thaw (notmuch_message_t *message)
 
     if (message->frozen > 0) {
 	message->frozen--;
-	if (message->frozen == 0)
-	    _notmuch_message_sync (message);
+	try {
+	    if (message->frozen == 0)
+		_notmuch_message_sync (message);
+	} catch (const Xapian::Error &error) {
+	    LOG_XAPIAN_EXCEPTION (message, error);
+	    return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+	}
 	return NOTMUCH_STATUS_SUCCESS;
     } else {
 	return NOTMUCH_STATUS_UNBALANCED_FREEZE_THAW;
-- 
2.43.0


From 9b20d359782d0830e6f07cba5b118e9bc59acafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 04/47] fix: lib: report Xapian exceptions from
 tags_to_maildir_flags

---
 lib/message.cc | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index c16cd5e..d554eb2 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2077,24 +2077,30 @@ notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
 	    if (err)
 		continue;
 
-	    new_status = _notmuch_message_remove_filename (message,
-							   filename);
-	    /* Hold on to only the first error. */
-	    if (! status && new_status
-		&& new_status != NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
-		status = new_status;
-		continue;
-	    }
+	    try {
+		new_status = _notmuch_message_remove_filename (message,
+							       filename);
+		/* Hold on to only the first error. */
+		if (! status && new_status
+		    && new_status != NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
+		    status = new_status;
+		    continue;
+		}
 
-	    new_status = _notmuch_message_add_filename (message,
-							filename_new);
-	    /* Hold on to only the first error. */
-	    if (! status && new_status) {
-		status = new_status;
-		continue;
-	    }
+		new_status = _notmuch_message_add_filename (message,
+							    filename_new);
+		/* Hold on to only the first error. */
+		if (! status && new_status) {
+		    status = new_status;
+		    continue;
+		}
 
-	    _notmuch_message_sync (message);
+		_notmuch_message_sync (message);
+	    } catch (const Xapian::Error &error) {
+		LOG_XAPIAN_EXCEPTION (message, error);
+		if (! status)
+		    status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+	    }
 	}
 
 	talloc_free (filename_new);
-- 
2.43.0


From 6e0530ac66a449f617428a0ea0da17ea826b3eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 05/47] fix: lib: refuse to remove messages through a read-only
 database

notmuch_database_remove_message is documented to return
NOTMUCH_STATUS_READ_ONLY_DATABASE, but reported success (or
DUPLICATE_MESSAGE_ID) for a file of a message with several files.
---
 lib/database.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/database.cc b/lib/database.cc
index 737a3f3..124d265 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -1450,6 +1450,10 @@ notmuch_database_remove_message (notmuch_database_t *notmuch,
     notmuch_status_t status;
     notmuch_message_t *message;
 
+    status = _notmuch_database_ensure_writable (notmuch);
+    if (status)
+	return status;
+
     status = notmuch_database_find_message_by_filename (notmuch, filename,
 							&message);
 
-- 
2.43.0


From 3c28ae6196ce080d954b9c51bd5bb6879174980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 06/47] fix: lib: report Xapian exceptions from
 notmuch_database_remove_message

---
 lib/database.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index 124d265..afb264a 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -1458,13 +1458,18 @@ notmuch_database_remove_message (notmuch_database_t *notmuch,
 							&message);
 
     if (status == NOTMUCH_STATUS_SUCCESS && message) {
-	if (notmuch_message_count_files (message) > 1) {
-	    status = _notmuch_message_remove_filename (message, filename);
+	try {
+	    if (notmuch_message_count_files (message) > 1) {
+		status = _notmuch_message_remove_filename (message, filename);
+	    }
+	    if (status == NOTMUCH_STATUS_SUCCESS)
+		status = _notmuch_message_delete (message);
+	    else if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID)
+		_notmuch_message_sync (message);
+	} catch (const Xapian::Error &error) {
+	    LOG_XAPIAN_EXCEPTION (notmuch, error);
+	    status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
 	}
-	if (status == NOTMUCH_STATUS_SUCCESS)
-	    status = _notmuch_message_delete (message);
-	else if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID)
-	    _notmuch_message_sync (message);
 
 	notmuch_message_destroy (message);
     }
-- 
2.43.0


From 427798f0e317e57189fb697082189523cd0d5e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 07/47] fix: lib: report Xapian exceptions raised while parsing
 an s-expression query

The infix parser handles them; the s-expression parser let them (for
example a syntax error in a saved infix query it refers to) escape to
the caller and terminate the program.
---
 lib/query.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/query.cc b/lib/query.cc
index 1c60c12..f1ae3bf 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -237,12 +237,20 @@ _notmuch_query_ensure_parsed_sexpr (notmuch_query_t *query)
     if (query->parsed)
 	return NOTMUCH_STATUS_SUCCESS;
 
-    status = _notmuch_sexp_string_to_xapian_query (query->notmuch, query->query_string,
-						   query->xapian_query);
-    if (status)
-	return status;
+    try {
+	status = _notmuch_sexp_string_to_xapian_query (query->notmuch, query->query_string,
+						       query->xapian_query);
+	if (status)
+	    return status;
 
-    _notmuch_query_cache_terms (query);
+	_notmuch_query_cache_terms (query);
+    } catch (const Xapian::Error &error) {
+	_notmuch_database_log (query->notmuch,
+			       "A Xapian exception occurred parsing query: %s\n",
+			       error.get_msg ().c_str ());
+	query->notmuch->exception_reported = true;
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
     return NOTMUCH_STATUS_SUCCESS;
 }
 #endif
-- 
2.43.0


From 802199d9e89c405900b7658dc96bcb68a4c78f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 08/47] fix: lib: describe NOTMUCH_STATUS_CLOSED_DATABASE

notmuch_status_to_string called it an unknown error status value.
---
 lib/database.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/database.cc b/lib/database.cc
index afb264a..2339b61 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -311,6 +311,8 @@ notmuch_status_to_string (notmuch_status_t status)
 	return "Database exists, not recreated";
     case NOTMUCH_STATUS_BAD_QUERY_SYNTAX:
 	return "Syntax error in query";
+    case NOTMUCH_STATUS_CLOSED_DATABASE:
+	return "Database is closed";
     case NOTMUCH_STATUS_NO_MAIL_ROOT:
 	return "No mail root found";
     default:
-- 
2.43.0


From e27eec52db39ca669c1b2d56a92d3f28b35b0a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 09/47] fix: setup: don't use the config file object after
 closing it

---
 notmuch-setup.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/notmuch-setup.c b/notmuch-setup.c
index 9382e27..12f28ec 100644
--- a/notmuch-setup.c
+++ b/notmuch-setup.c
@@ -233,11 +233,11 @@ notmuch_setup_command (notmuch_database_t *notmuch,
     if (notmuch_conffile_save (config))
 	return EXIT_FAILURE;
 
-    if (config)
-	notmuch_conffile_close (config);
-
     if (notmuch_conffile_is_new (config))
 	welcome_message_post_setup ();
 
+    if (config)
+	notmuch_conffile_close (config);
+
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From fb3226710c92044c0afc2192ed54dc91685a692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 10/47] fix: count: don't destroy an uninitialized query

When the query cannot be created (for example, a syntax error in an
s-expression query) print_count destroyed an uninitialized pointer.
---
 notmuch-count.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/notmuch-count.c b/notmuch-count.c
index 0d9046a..f3da4f5 100644
--- a/notmuch-count.c
+++ b/notmuch-count.c
@@ -66,7 +66,7 @@ static int
 print_count (notmuch_database_t *notmuch, const char *query_str,
 	     notmuch_config_values_t *exclude_tags, int output, int print_lastmod)
 {
-    notmuch_query_t *query;
+    notmuch_query_t *query = NULL;
     int count;
     unsigned int ucount;
     unsigned long revision;
@@ -127,7 +127,8 @@ print_count (notmuch_database_t *notmuch, const char *query_str,
     }
 
   DONE:
-    notmuch_query_destroy (query);
+    if (query)
+	notmuch_query_destroy (query);
 
     return ret;
 }
-- 
2.43.0


From f060c79c1fa842fa86c2a17a35b3c9e878dcfd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 11/47] fix: lib: restore the sort order when counting threads
 fails

---
 lib/query.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/query.cc b/lib/query.cc
index f1ae3bf..1d2fe2c 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -792,9 +792,9 @@ notmuch_query_count_threads (notmuch_query_t *query, unsigned *count)
     sort = query->sort;
     query->sort = NOTMUCH_SORT_UNSORTED;
     ret = notmuch_query_search_messages (query, &messages);
+    query->sort = sort;
     if (ret)
 	return ret;
-    query->sort = sort;
     if (messages == NULL)
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
 
-- 
2.43.0


From ba891bafe448526244523ebb6f86a48725cb8f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 12/47] fix: insert: process indexing options before delivering
 the message

A failure there was reported to the delivery agent, but left the
delivered file behind: the retried delivery duplicates the message.
---
 notmuch-insert.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index e44607a..7b253a3 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -566,12 +566,6 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
     action.sa_flags = 0;
     sigaction (SIGINT, &action, NULL);
 
-    /* Write the message to the Maildir new directory. */
-    newpath = maildir_write_new (local, STDIN_FILENO, maildir, world_readable);
-    if (! newpath) {
-	return EXIT_FAILURE;
-    }
-
     status = notmuch_process_shared_indexing_options (indexopts);
     if (status != NOTMUCH_STATUS_SUCCESS) {
 	fprintf (stderr, "Error: Failed to process index options. (%s)\n",
@@ -579,6 +573,12 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	return EXIT_FAILURE;
     }
 
+    /* Write the message to the Maildir new directory. */
+    newpath = maildir_write_new (local, STDIN_FILENO, maildir, world_readable);
+    if (! newpath) {
+	return EXIT_FAILURE;
+    }
+
     /* Index the message. */
     status = add_file (notmuch, newpath, tag_ops, synchronize_flags, keep, indexopts);
 
-- 
2.43.0


From 2bb31bbc5de92034270e5dba030aa3549c5572cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 13/47] fix: show: stop at a read error in mbox format

A read error (for example a corrupt gzipped message) repeated the last
line read forever.
---
 notmuch-show.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/notmuch-show.c b/notmuch-show.c
index 7fb40ce..2a7f23d 100644
--- a/notmuch-show.c
+++ b/notmuch-show.c
@@ -897,7 +897,7 @@ format_part_mbox (const void *ctx, unused (sprinter_t *sp), mime_node_t *node,
 
     char *line = NULL;
     ssize_t line_size;
-    ssize_t line_len;
+    util_status_t status;
 
     if (! message)
 	INTERNAL_ERROR ("format_part_mbox requires a root part");
@@ -919,7 +919,7 @@ format_part_mbox (const void *ctx, unused (sprinter_t *sp), mime_node_t *node,
 
     printf ("From %s %s", from, date_asctime);
 
-    while ((line_len = gz_getline (message, &line, &line_size, file)) != UTIL_EOF ) {
+    while ((status = gz_getline (message, &line, &line_size, file)) == UTIL_SUCCESS) {
 	if (_is_from_line (line))
 	    putchar ('>');
 	printf ("%s", line);
@@ -927,9 +927,12 @@ format_part_mbox (const void *ctx, unused (sprinter_t *sp), mime_node_t *node,
 
     printf ("\n");
 
+    if (status != UTIL_EOF)
+	fprintf (stderr, "Error reading %s: %s\n", filename, gz_error_string (status, file));
+
     gzclose (file);
 
-    return NOTMUCH_STATUS_SUCCESS;
+    return status == UTIL_EOF ? NOTMUCH_STATUS_SUCCESS : NOTMUCH_STATUS_FILE_ERROR;
 }
 
 static notmuch_status_t
-- 
2.43.0


From 35960693be322bd6ab9376c353b91cc7eff20515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 14/47] fix: cli: exit with failure when the configuration is
 missing

'notmuch config' printed an error but reported success.
---
 notmuch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/notmuch.c b/notmuch.c
index 814b9e4..416a4a1 100644
--- a/notmuch.c
+++ b/notmuch.c
@@ -573,6 +573,7 @@ main (int argc, char *argv[])
 	case NOTMUCH_STATUS_NO_CONFIG:
 	    if (! (command->mode & NOTMUCH_COMMAND_CONFIG_CREATE)) {
 		fputs ("Try running 'notmuch setup' to create a configuration.\n", stderr);
+		ret = EXIT_FAILURE;
 		goto DONE;
 	    }
 	    break;
-- 
2.43.0


From 40cd5d6b2c162e2de1fb7f85cab59e501d68a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 15/47] fix: restore: don't crash on incomplete config and
 property lines

A property line for a message missing from the database, and config or
property lines without their fields, dereferenced a NULL pointer.
---
 notmuch-restore.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 1cce004..2c8f927 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -36,7 +36,11 @@ process_config_line (notmuch_database_t *notmuch, const char *line)
     void *local = talloc_new (NULL);
 
     key_p = strtok_len_c (line, delim, &key_len);
-    val_p = strtok_len_c (key_p + key_len, delim, &val_len);
+    val_p = key_p ? strtok_len_c (key_p + key_len, delim, &val_len) : NULL;
+    if (val_p == NULL) {
+	fprintf (stderr, "Missing key or value in line %s\n", line);
+	goto DONE;
+    }
 
     key = talloc_strndup (local, key_p, key_len);
     val = talloc_strndup (local, val_p, val_len);
@@ -71,6 +75,10 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     void *local = talloc_new (NULL);
 
     id_p = strtok_len_c (line, delim, &id_len);
+    if (id_p == NULL) {
+	fprintf (stderr, "Missing message id in line %s\n", line);
+	goto DONE;
+    }
     id = talloc_strndup (local, id_p, id_len);
     if (hex_decode_inplace (id) != HEX_SUCCESS) {
 	fprintf (stderr, "hex decoding failure on line %s\n", line);
@@ -81,6 +89,13 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
 			       notmuch_database_find_message (notmuch, id, &message)))
 	goto DONE;
 
+    if (message == NULL) {
+	fprintf (stderr, "Warning: cannot set properties of missing message: %s\n", id);
+	/* As for tags, we consider this a non-fatal error. */
+	ret = EXIT_SUCCESS;
+	goto DONE;
+    }
+
     if (print_status_database ("notmuch restore", notmuch,
 			       notmuch_message_remove_all_properties (message, NULL)))
 	goto DONE;
-- 
2.43.0


From f1c473cfc4949382c618c15faa10dbf928f20f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 16/47] fix: tag: report failure to commit the changes

---
 notmuch-tag.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/notmuch-tag.c b/notmuch-tag.c
index 71ff06b..4394127 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -308,6 +308,10 @@ notmuch_tag_command (notmuch_database_t *notmuch, int argc, char *argv[])
     else
 	ret = tag_query (notmuch, notmuch, query_string, tag_ops, tag_flags);
 
+    if (print_status_database ("notmuch tag", notmuch,
+			       notmuch_database_close (notmuch)))
+	ret = 1;
+
     notmuch_database_destroy (notmuch);
 
     if (input != stdin)
-- 
2.43.0


From 778dd2c8f2470882ac985b3c27db884a6ef20e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 17/47] fix: reindex: report failure to commit the changes

---
 notmuch-reindex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/notmuch-reindex.c b/notmuch-reindex.c
index e9a6545..c6a1bd9 100644
--- a/notmuch-reindex.c
+++ b/notmuch-reindex.c
@@ -131,6 +131,10 @@ notmuch_reindex_command (notmuch_database_t *notmuch, int argc, char *argv[])
 
     ret = reindex_query (notmuch, query_string, indexopts);
 
+    if (print_status_database ("notmuch reindex", notmuch,
+			       notmuch_database_close (notmuch)))
+	ret = 1;
+
     notmuch_database_destroy (notmuch);
 
     return ret || interrupted ? EXIT_FAILURE : EXIT_SUCCESS;
-- 
2.43.0


From 16d7e81e2fb9340a94d8f59a89e4ff3fe1743628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 18/47] fix: restore: report failure to commit the changes

---
 notmuch-restore.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 2c8f927..48804e7 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -466,8 +466,12 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
     if (line_ctx != NULL)
 	talloc_free (line_ctx);
 
-    if (notmuch)
+    if (notmuch) {
+	if (print_status_database ("notmuch restore", notmuch,
+				   notmuch_database_close (notmuch)))
+	    ret = EXIT_FAILURE;
 	notmuch_database_destroy (notmuch);
+    }
 
     if (input) {
 	errnum = gzclose_r (input);
-- 
2.43.0


From 380f972a2fd6b285020f4199eee6e8b3085134f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 19/47] fix: new: report failure to commit the changes

The exit code said success, and post-new ran, although the index was
not written.
---
 notmuch-new.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 4a53e3e..b2b07af 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -1308,7 +1308,9 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	fprintf (stderr, "Note: A fatal error was encountered: %s\n",
 		 notmuch_status_to_string (ret));
 
-    notmuch_database_close (notmuch);
+    if (print_status_database ("notmuch new", notmuch,
+			       notmuch_database_close (notmuch)))
+	ret = EXIT_FAILURE;
 
     if (hooks && ! ret && ! interrupted)
 	ret = notmuch_run_hook (notmuch, "post-new");
-- 
2.43.0


From 89c20af7b7a3a44f94381f0743704c4eb2f04833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:51 +0000
Subject: [PATCH 20/47] fix: new: report failure to commit the removal of a
 file

---
 notmuch-new.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index b2b07af..5c2debd 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -946,7 +946,7 @@ remove_filename (notmuch_database_t *notmuch,
 		 const char *path,
 		 add_files_state_t *add_files_state)
 {
-    notmuch_status_t status;
+    notmuch_status_t status, end_status;
     notmuch_message_t *message;
 
     status = notmuch_database_begin_atomic (notmuch);
@@ -968,7 +968,9 @@ remove_filename (notmuch_database_t *notmuch,
     notmuch_message_destroy (message);
 
   DONE:
-    notmuch_database_end_atomic (notmuch);
+    end_status = notmuch_database_end_atomic (notmuch);
+    if (! status)
+	status = end_status;
     return status;
 }
 
-- 
2.43.0


From 9b46c013af87a14a76fe6640a4acc4e085b7dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 21/47] fix: new: release the scan state when a directory entry
 cannot be read

Two early returns leaked the directory listing and the directory object.
---
 notmuch-new.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 5c2debd..788584b 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -600,7 +600,8 @@ add_files (notmuch_database_t *notmuch,
 	     * because a user broke a symlink. */
 	    fprintf (stderr, "Error reading file %s/%s: %s\n",
 		     path, entry->d_name, strerror (errno));
-	    return NOTMUCH_STATUS_FILE_ERROR;
+	    ret = NOTMUCH_STATUS_FILE_ERROR;
+	    goto DONE;
 	} else if (entry_type != S_IFDIR) {
 	    continue;
 	}
@@ -698,7 +699,8 @@ add_files (notmuch_database_t *notmuch,
 	if (entry_type == -1) {
 	    fprintf (stderr, "Error reading file %s/%s: %s\n",
 		     path, entry->d_name, strerror (errno));
-	    return NOTMUCH_STATUS_FILE_ERROR;
+	    ret = NOTMUCH_STATUS_FILE_ERROR;
+	    goto DONE;
 	} else if (entry_type != S_IFREG) {
 	    continue;
 	}
-- 
2.43.0


From c05bee8a018e490b1aaccfb50e1fe2d1804538ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 22/47] fix: lib: keep the status of remove_message for a
 closed database

Only the read-only case is refused up front; a closed database is still
reported by the lookup, as before.
---
 lib/database.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index 2339b61..48d951b 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -1452,9 +1452,10 @@ notmuch_database_remove_message (notmuch_database_t *notmuch,
     notmuch_status_t status;
     notmuch_message_t *message;
 
-    status = _notmuch_database_ensure_writable (notmuch);
-    if (status)
-	return status;
+    if (_notmuch_database_mode (notmuch) == NOTMUCH_DATABASE_MODE_READ_ONLY) {
+	_notmuch_database_log (notmuch, "Cannot write to a read-only database.\n");
+	return NOTMUCH_STATUS_READ_ONLY_DATABASE;
+    }
 
     status = notmuch_database_find_message_by_filename (notmuch, filename,
 							&message);
-- 
2.43.0


From 7728bb30f725bf76b12ed7672cdee9cb45fc46c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 23/47] fix: lib: report every exception parsing an infix
 subquery

Only the first exception reported on a database handle was turned into
an error; a later one was taken for success with an empty query.
---
 lib/parse-sexp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/parse-sexp.cc b/lib/parse-sexp.cc
index 9cadbc1..43c3004 100644
--- a/lib/parse-sexp.cc
+++ b/lib/parse-sexp.cc
@@ -347,8 +347,8 @@ _sexp_parse_infix (notmuch_database_t *notmuch, const sexp_t *sx, Xapian::Query
 					  "Query string was: %s\n",
 					  sx->val);
 	    notmuch->exception_reported = true;
-	    return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
 	}
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
     return NOTMUCH_STATUS_SUCCESS;
 }
-- 
2.43.0


From eaba7f29247cbeaef2cbf69fae3c60281935b1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:28 +0000
Subject: [PATCH 24/47] fix: lib: report failure to re-add a filename when
 reindexing

---
 lib/message.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/message.cc b/lib/message.cc
index d554eb2..7593733 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2322,7 +2322,9 @@ notmuch_message_reindex (notmuch_message_t *message,
 
 	/* XXX TODO: deal with changing message id? */
 
-	_notmuch_message_add_filename (message, filename);
+	ret = _notmuch_message_add_filename (message, filename);
+	if (ret)
+	    goto DONE;
 
 	ret = _notmuch_database_link_message_to_parents (notmuch, message,
 							 message_file,
-- 
2.43.0


From 9a3f9d07ea31a461cfc0445d3c9d3ebd01c0f068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 25/47] fix: reindex: stop when the atomic section cannot be
 opened

The status was overwritten, and with no matching messages ignored.
---
 notmuch-reindex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/notmuch-reindex.c b/notmuch-reindex.c
index c6a1bd9..c2597da 100644
--- a/notmuch-reindex.c
+++ b/notmuch-reindex.c
@@ -63,6 +63,11 @@ reindex_query (notmuch_database_t *notmuch, const char *query_string,
 	return status;
 
     ret = notmuch_database_begin_atomic (notmuch);
+    if (print_status_database ("notmuch reindex", notmuch, ret)) {
+	notmuch_query_destroy (query);
+	return ret;
+    }
+
     for (;
 	 notmuch_messages_valid (messages) && ! interrupted;
 	 notmuch_messages_move_to_next (messages)) {
-- 
2.43.0


From d099b53552a43ac5fcbcd6432ca7160122b2218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:16 +0000
Subject: [PATCH 26/47] fix: new: report failure to tag a new message

Errors adding the initial tags were ignored, so new mail could end up
without (for example) the inbox tag while notmuch new succeeded.
---
 notmuch-new.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 788584b..32d14ce 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -382,9 +382,11 @@ add_file (notmuch_database_t *notmuch, const char *filename,
     /* Success. */
     case NOTMUCH_STATUS_SUCCESS:
 	state->added_messages++;
-	notmuch_message_freeze (message);
-	if (state->synchronize_flags)
-	    notmuch_message_maildir_flags_to_tags (message);
+	status = notmuch_message_freeze (message);
+	if (! status && state->synchronize_flags)
+	    status = notmuch_message_maildir_flags_to_tags (message);
+	if (print_status_message ("add_file", message, status))
+	    goto DONE;
 
 	for (notmuch_config_values_start (state->new_tags);
 	     notmuch_config_values_valid (state->new_tags);
@@ -396,11 +398,15 @@ add_file (notmuch_database_t *notmuch, const char *filename,
 	    if ((status = notmuch_message_has_maildir_flag_st (message, 'S', &is_set)))
 		goto DONE;
 	    if (strcmp ("unread", tag) != 0 || ! is_set) {
-		notmuch_message_add_tag (message, tag);
+		status = notmuch_message_add_tag (message, tag);
+		if (print_status_message ("add_file", message, status))
+		    goto DONE;
 	    }
 	}
 
-	notmuch_message_thaw (message);
+	status = notmuch_message_thaw (message);
+	if (print_status_message ("add_file", message, status))
+	    goto DONE;
 	break;
     /* Non-fatal issues (go on to next file). */
     case NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID:
@@ -961,9 +967,9 @@ remove_filename (notmuch_database_t *notmuch,
     status = notmuch_database_remove_message (notmuch, path);
     if (status == NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID) {
 	add_files_state->renamed_messages++;
-	if (add_files_state->synchronize_flags == true)
-	    notmuch_message_maildir_flags_to_tags (message);
 	status = NOTMUCH_STATUS_SUCCESS;
+	if (add_files_state->synchronize_flags == true)
+	    status = notmuch_message_maildir_flags_to_tags (message);
     } else if (status == NOTMUCH_STATUS_SUCCESS) {
 	add_files_state->removed_messages++;
     }
-- 
2.43.0


From 881472fd73e985eef867861ef4d0a093127e8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 27/47] fix: lib: report Xapian exceptions while loading the
 stored configuration

---
 lib/config.cc | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/lib/config.cc b/lib/config.cc
index 6cd15fa..871643e 100644
--- a/lib/config.cc
+++ b/lib/config.cc
@@ -257,19 +257,27 @@ _notmuch_config_load_from_database (notmuch_database_t *notmuch)
     if (status)
 	return status;
 
-    for (; notmuch_config_list_valid (list); notmuch_config_list_move_to_next (list)) {
-	const char *key = notmuch_config_list_key (list);
-	char *normalized_val = NULL;
-
-	/* If we opened from a given path, do not overwrite it */
-	if (strcmp (key, "database.path") == 0 &&
-	    (notmuch->params & NOTMUCH_PARAM_DATABASE) &&
-	    notmuch->xapian_db)
-	    continue;
-
-	normalized_val = _expand_path (list, key, notmuch_config_list_value (list));
-	_notmuch_string_map_append (notmuch->config, key, normalized_val);
-	talloc_free (normalized_val);
+    try {
+	for (; notmuch_config_list_valid (list); notmuch_config_list_move_to_next (list)) {
+	    const char *key = notmuch_config_list_key (list);
+	    char *normalized_val = NULL;
+
+	    /* If we opened from a given path, do not overwrite it */
+	    if (strcmp (key, "database.path") == 0 &&
+		(notmuch->params & NOTMUCH_PARAM_DATABASE) &&
+		notmuch->xapian_db)
+		continue;
+
+	    normalized_val = _expand_path (list, key, notmuch_config_list_value (list));
+	    _notmuch_string_map_append (notmuch->config, key, normalized_val);
+	    talloc_free (normalized_val);
+	}
+    } catch (const Xapian::Error &error) {
+	_notmuch_database_log (notmuch,
+			       "A Xapian exception occurred loading configuration: %s.\n",
+			       error.get_msg ().c_str ());
+	notmuch->exception_reported = true;
+	status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
 
     return status;
-- 
2.43.0


From 5fcb41ac61a0c4cb881dbd4ef193d30baa6eb485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 28/47] fix: lib: report Xapian exceptions from
 notmuch_message_reindex

---
 lib/message.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index 7593733..9444c87 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2248,9 +2248,9 @@ _notmuch_message_frozen (notmuch_message_t *message)
     return message->frozen;
 }
 
-notmuch_status_t
-notmuch_message_reindex (notmuch_message_t *message,
-			 notmuch_indexopts_t *indexopts)
+static notmuch_status_t
+_message_reindex (notmuch_message_t *message,
+		  notmuch_indexopts_t *indexopts)
 {
     notmuch_database_t *notmuch = NULL;
     notmuch_status_t ret = NOTMUCH_STATUS_SUCCESS;
@@ -2374,3 +2374,20 @@ notmuch_message_reindex (notmuch_message_t *message,
     /* XXX TODO destroy orig_filenames? */
     return ret;
 }
+
+notmuch_status_t
+notmuch_message_reindex (notmuch_message_t *message,
+			 notmuch_indexopts_t *indexopts)
+{
+    try {
+	return _message_reindex (message, indexopts);
+    } catch (Xapian::Error &error) {
+	notmuch_database_t *notmuch = notmuch_message_get_database (message);
+
+	_notmuch_database_log (notmuch,
+			       "A Xapian exception occurred reindexing message: %s\n",
+			       error.get_msg ().c_str ());
+	notmuch->exception_reported = true;
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
+}
-- 
2.43.0


From 2024e7c6a60f62d933f271f3956e28dae51038ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:45 +0000
Subject: [PATCH 29/47] fix: lib: report Xapian exceptions from
 notmuch_threads_get

---
 lib/query.cc     | 22 +++++++++++++++-------
 notmuch-search.c |  8 +++++++-
 notmuch-show.c   |  5 +++++
 3 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/lib/query.cc b/lib/query.cc
index 1d2fe2c..3ebfa6a 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -679,13 +679,21 @@ notmuch_threads_get (notmuch_threads_t *threads)
 
     doc_id = g_array_index (threads->doc_ids, unsigned int,
 			    threads->doc_id_pos);
-    return _notmuch_thread_create (threads->query,
-				   threads->query->notmuch,
-				   doc_id,
-				   &threads->match_set,
-				   threads->query->exclude_terms,
-				   threads->query->omit_excluded,
-				   threads->query->sort);
+    try {
+	return _notmuch_thread_create (threads->query,
+				       threads->query->notmuch,
+				       doc_id,
+				       &threads->match_set,
+				       threads->query->exclude_terms,
+				       threads->query->omit_excluded,
+				       threads->query->sort);
+    } catch (const Xapian::Error &error) {
+	_notmuch_database_log (threads->query->notmuch,
+			       "A Xapian exception occurred creating a thread: %s\n",
+			       error.get_msg ().c_str ());
+	threads->query->notmuch->exception_reported = true;
+	return NULL;
+    }
 }
 
 void
diff --git a/notmuch-search.c b/notmuch-search.c
index 327e144..062013f 100644
--- a/notmuch-search.c
+++ b/notmuch-search.c
@@ -124,6 +124,7 @@ do_search_threads (search_context_t *ctx)
     sprinter_t *format = ctx->format;
     time_t date;
     int i;
+    int ret = 0;
     notmuch_status_t status;
 
     if (ctx->offset < 0) {
@@ -148,6 +149,11 @@ do_search_threads (search_context_t *ctx)
 	 notmuch_threads_valid (threads) && (ctx->limit < 0 || i < ctx->offset + ctx->limit);
 	 notmuch_threads_move_to_next (threads), i++) {
 	thread = notmuch_threads_get (threads);
+	if (thread == NULL) {
+	    fprintf (stderr, "notmuch search: failed to get thread.\n");
+	    ret = 1;
+	    break;
+	}
 
 	if (i < ctx->offset) {
 	    notmuch_thread_destroy (thread);
@@ -269,7 +275,7 @@ do_search_threads (search_context_t *ctx)
 
     format->end (format);
 
-    return 0;
+    return ret;
 }
 
 static mailbox_t *
diff --git a/notmuch-show.c b/notmuch-show.c
index 2a7f23d..b2f8dbf 100644
--- a/notmuch-show.c
+++ b/notmuch-show.c
@@ -1185,6 +1185,11 @@ do_show_threaded (void *ctx,
 	 notmuch_threads_valid (threads) && (params->limit < 0 || i < params->offset + params->limit);
 	 notmuch_threads_move_to_next (threads), i++) {
 	thread = notmuch_threads_get (threads);
+	if (thread == NULL) {
+	    fprintf (stderr, "notmuch show: failed to get thread.\n");
+	    res = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+	    break;
+	}
 
 	if (i < params->offset) {
 	    notmuch_thread_destroy (thread);
-- 
2.43.0


From 51de1bd06ecb82fa0a525343a96171056d0c261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 30/47] fix: lib: stop an upgrade when a record cannot be
 converted

---
 lib/database.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index 48d951b..2db00e4 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -953,7 +953,9 @@ notmuch_database_upgrade (notmuch_database_t *notmuch,
 	    if (new_features & NOTMUCH_FEATURE_FILE_TERMS) {
 		filename = _notmuch_message_talloc_copy_data (message);
 		if (filename && *filename != '\0') {
-		    _notmuch_message_add_filename (message, filename);
+		    status = _notmuch_message_add_filename (message, filename);
+		    if (status)
+			goto DONE;
 		    _notmuch_message_clear_data (message);
 		}
 		talloc_free (filename);
@@ -1019,7 +1021,11 @@ notmuch_database_upgrade (notmuch_database_t *notmuch,
 
 		directory = _notmuch_directory_find_or_create (notmuch, term.c_str () + 10,
 							       NOTMUCH_FIND_CREATE, &status);
-		notmuch_directory_set_mtime (directory, mtime);
+		if (status)
+		    goto DONE;
+		status = notmuch_directory_set_mtime (directory, mtime);
+		if (status)
+		    goto DONE;
 		notmuch_directory_destroy (directory);
 
 		db->delete_document (*p);
-- 
2.43.0


From 220a3b41fe9285de7d9e5c4be9d52ab06d04e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:12 +0000
Subject: [PATCH 31/47] fix: lib: thaw the message when applying maildir flags
 fails

---
 lib/message.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index 9444c87..3ab7ce8 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -1839,7 +1839,7 @@ notmuch_message_has_maildir_flag_st (notmuch_message_t *message,
 notmuch_status_t
 notmuch_message_maildir_flags_to_tags (notmuch_message_t *message)
 {
-    notmuch_status_t status;
+    notmuch_status_t status, thaw_status;
     unsigned i;
 
     status = _ensure_maildir_flags (message, true);
@@ -1864,11 +1864,13 @@ notmuch_message_maildir_flags_to_tags (notmuch_message_t *message)
 	    status = notmuch_message_remove_tag (message, flag2tag[i].tag);
 	}
 	if (status)
-	    return status;
+	    break;
     }
-    status = notmuch_message_thaw (message);
 
-    return status;
+    /* Always balance the freeze above, but report the first error. */
+    thaw_status = notmuch_message_thaw (message);
+
+    return status ? status : thaw_status;
 }
 
 /* From the set of tags on 'message' and the flag2tag table, compute a
-- 
2.43.0


From a827dc44e4beb452afc557b5f33bb1fcb961f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 32/47] fix: lib: close the talloc report file

notmuch_database_destroy opened the file named by
NOTMUCH_TALLOC_REPORT and never closed it.
---
 lib/database.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/database.cc b/lib/database.cc
index 2db00e4..e3ed9cb 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -745,6 +745,7 @@ notmuch_database_destroy (notmuch_database_t *notmuch)
 	FILE *report = fopen (talloc_report, "a");
 	if (report) {
 	    talloc_report_full (notmuch, report);
+	    fclose (report);
 	}
     }
 
-- 
2.43.0


From ea759e46d62741d25759e84806707554a3de01db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 33/47] fix: util: release the stream of a message that cannot
 be read

When the first bytes of a message file could not be read, the stream
over it was dropped without being released, leaking the open file.
---
 util/gmime-extra.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/util/gmime-extra.c b/util/gmime-extra.c
index 192cb07..bac5d7d 100644
--- a/util/gmime-extra.c
+++ b/util/gmime-extra.c
@@ -9,10 +9,10 @@ _gzfile_maybe_filter (GMimeStream *file_stream)
     int bytes_read;
 
     if ((bytes_read = g_mime_stream_read (file_stream, buf, sizeof (buf))) < 0)
-	return NULL;
+	goto FAIL;
 
     if (g_mime_stream_reset (file_stream))
-	return NULL;
+	goto FAIL;
 
     /* check for gzipped input */
     if (bytes_read >= 2 && buf[0] == 0x1f && (unsigned char) buf[1] == 0x8b) {
@@ -21,11 +21,13 @@ _gzfile_maybe_filter (GMimeStream *file_stream)
 
 	gzfilter = g_mime_filter_gzip_new (GMIME_FILTER_GZIP_MODE_UNZIP, 0);
 	if (! gzfilter)
-	    return NULL;
+	    goto FAIL;
 
 	gzstream = g_mime_stream_filter_new (file_stream);
-	if (! gzstream)
-	    return NULL;
+	if (! gzstream) {
+	    g_object_unref (gzfilter);
+	    goto FAIL;
+	}
 
 	/* ignore filter id */
 	(void) g_mime_stream_filter_add ((GMimeStreamFilter *) gzstream, gzfilter);
@@ -35,6 +37,10 @@ _gzfile_maybe_filter (GMimeStream *file_stream)
     } else {
 	return file_stream;
     }
+
+  FAIL:
+    g_object_unref (file_stream);
+    return NULL;
 }
 
 GMimeStream *
-- 
2.43.0


From ecbc599e4fd88be2d96f7c0b191c69d89d5b90ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 34/47] fix: lib: free the configuration file object in
 load_config

notmuch_database_load_config dropped the parsed configuration file
without freeing it, on success and on failure.
---
 lib/open.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/open.cc b/lib/open.cc
index 463e38b..ef293c9 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -975,6 +975,9 @@ notmuch_database_load_config (const char *database_path,
 	goto DONE;
 
   DONE:
+    if (key_file)
+	g_key_file_free (key_file);
+
     if (status_string)
 	*status_string = message;
 
-- 
2.43.0


From a263d611613f74dcfc12ec992d3d657cbd974d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:28 +0000
Subject: [PATCH 35/47] fix: new: don't destroy a directory twice when deleting
 it fails

---
 notmuch-new.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 32d14ce..a1ea3db 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -1020,11 +1020,11 @@ _remove_directory (notmuch_database_t *notmuch,
 	    goto DONE;
     }
 
-    status = notmuch_directory_delete (directory);
+    /* This destroys directory, even on failure. */
+    return notmuch_directory_delete (directory);
 
   DONE:
-    if (status)
-	notmuch_directory_destroy (directory);
+    notmuch_directory_destroy (directory);
     return status;
 }
 
-- 
2.43.0


From f001b1a7778cbc8c786d974a3ce665e645dcbd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:00 +0000
Subject: [PATCH 36/47] fix: lib: don't return a freed thread when its query
 fails

The thread is still a child of the local context at that point, so
freeing the context frees it.
---
 lib/thread.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/thread.cc b/lib/thread.cc
index 60e9a66..0ebc3ff 100644
--- a/lib/thread.cc
+++ b/lib/thread.cc
@@ -615,8 +615,10 @@ _notmuch_thread_create (void *ctx,
     notmuch_query_set_sort (thread_id_query, NOTMUCH_SORT_OLDEST_FIRST);
 
     status = notmuch_query_search_messages (thread_id_query, &messages);
-    if (status)
+    if (status) {
+	thread = NULL;
 	goto DONE;
+    }
 
     for (;
 	 notmuch_messages_valid (messages);
-- 
2.43.0


From 9b927d8204ad2ab53c1e96dbf7ca82f56e430b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:50 +0000
Subject: [PATCH 37/47] fix: lib: drop cached tags and parent when reindexing a
 message

---
 lib/message.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/message.cc b/lib/message.cc
index 3ab7ce8..94a9213 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -782,6 +782,10 @@ _notmuch_message_remove_indexed_terms (notmuch_message_t *message)
 
     notmuch_message_properties_destroy (list);
 
+    /* Do not answer from terms that are gone. */
+    _notmuch_message_invalidate_metadata (message, "tag");
+    _notmuch_message_invalidate_metadata (message, "replyto");
+
     return NOTMUCH_PRIVATE_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 684352692adb03f29bc27638e79dfc997f9d94ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:37 +0000
Subject: [PATCH 38/47] fix: lib: a failing upgrade reports the failure and
 leaves the old format behind

Cancelling a transaction that was not begun threw, exceptions escaped
to the C caller with the transaction open and the progress timer
armed, and the handle kept the features of the new format.
---
 lib/database.cc | 145 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 93 insertions(+), 52 deletions(-)

diff --git a/lib/database.cc b/lib/database.cc
index e3ed9cb..c1ad2aa 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -830,65 +830,30 @@ handle_sigalrm (unused (int signal))
     do_progress_notify = 1;
 }
 
-/* Upgrade the current database.
- *
- * After opening a database in read-write mode, the client should
- * check if an upgrade is needed (notmuch_database_needs_upgrade) and
- * if so, upgrade with this function before making any modifications.
- *
- * The optional progress_notify callback can be used by the caller to
- * provide progress indication to the user. If non-NULL it will be
- * called periodically with 'count' as the number of messages upgraded
- * so far and 'total' the overall number of messages that will be
- * converted.
- */
-notmuch_status_t
-notmuch_database_upgrade (notmuch_database_t *notmuch,
-			  void (*progress_notify)(void *closure,
-						  double progress),
-			  void *closure)
+/* Convert the database to the current set of features. On return (or
+ * exception), *in_transaction tells whether there is a transaction
+ * that the caller needs to cancel. */
+static notmuch_status_t
+_convert_database (notmuch_database_t *notmuch,
+		   void (*progress_notify)(void *closure,
+					   double progress),
+		   void *closure,
+		   bool *in_transaction)
 {
     void *local = talloc_new (NULL);
     Xapian::TermIterator t, t_end;
     Xapian::WritableDatabase *db;
-    struct sigaction action;
-    struct itimerval timerval;
-    bool timer_is_active = false;
     enum _notmuch_features target_features, new_features;
     notmuch_status_t status;
     notmuch_private_status_t private_status;
     notmuch_query_t *query = NULL;
     unsigned int count = 0, total = 0;
 
-    if (_notmuch_database_mode (notmuch) != NOTMUCH_DATABASE_MODE_READ_WRITE)
-	return NOTMUCH_STATUS_READ_ONLY_DATABASE;
-
     db = notmuch->writable_xapian_db;
 
     target_features = notmuch->features | NOTMUCH_FEATURES_CURRENT;
     new_features = NOTMUCH_FEATURES_CURRENT & ~notmuch->features;
 
-    if (! notmuch_database_needs_upgrade (notmuch))
-	return NOTMUCH_STATUS_SUCCESS;
-
-    if (progress_notify) {
-	/* Set up our handler for SIGALRM */
-	memset (&action, 0, sizeof (struct sigaction));
-	action.sa_handler = handle_sigalrm;
-	sigemptyset (&action.sa_mask);
-	action.sa_flags = SA_RESTART;
-	sigaction (SIGALRM, &action, NULL);
-
-	/* Then start a timer to send SIGALRM once per second. */
-	timerval.it_interval.tv_sec = 1;
-	timerval.it_interval.tv_usec = 0;
-	timerval.it_value.tv_sec = 1;
-	timerval.it_value.tv_usec = 0;
-	setitimer (ITIMER_REAL, &timerval, NULL);
-
-	timer_is_active = true;
-    }
-
     /* Figure out how much total work we need to do. */
     if (new_features &
 	(NOTMUCH_FEATURE_FILE_TERMS | NOTMUCH_FEATURE_BOOL_FOLDER |
@@ -919,6 +884,7 @@ notmuch_database_upgrade (notmuch_database_t *notmuch,
 
     /* Perform the upgrade in a transaction. */
     db->begin_transaction (true);
+    *in_transaction = true;
 
     /* Set the target features so we write out changes in the desired
      * format. */
@@ -1090,11 +1056,90 @@ notmuch_database_upgrade (notmuch_database_t *notmuch,
     db->set_metadata ("features", _notmuch_database_print_features (local, notmuch->features));
     db->set_metadata ("version", STRINGIFY (NOTMUCH_DATABASE_VERSION));
 
+    *in_transaction = false;
+    db->commit_transaction ();
+
   DONE:
-    if (status == NOTMUCH_STATUS_SUCCESS)
-	db->commit_transaction ();
-    else
-	db->cancel_transaction ();
+    if (query)
+	notmuch_query_destroy (query);
+
+    talloc_free (local);
+    return status;
+}
+
+/* Upgrade the current database.
+ *
+ * After opening a database in read-write mode, the client should
+ * check if an upgrade is needed (notmuch_database_needs_upgrade) and
+ * if so, upgrade with this function before making any modifications.
+ *
+ * The optional progress_notify callback can be used by the caller to
+ * provide progress indication to the user. If non-NULL it will be
+ * called periodically with 'count' as the number of messages upgraded
+ * so far and 'total' the overall number of messages that will be
+ * converted.
+ */
+notmuch_status_t
+notmuch_database_upgrade (notmuch_database_t *notmuch,
+			  void (*progress_notify)(void *closure,
+						  double progress),
+			  void *closure)
+{
+    struct sigaction action;
+    struct itimerval timerval;
+    bool timer_is_active = false;
+    bool in_transaction = false;
+    enum _notmuch_features old_features;
+    notmuch_status_t status;
+
+    if (_notmuch_database_mode (notmuch) != NOTMUCH_DATABASE_MODE_READ_WRITE)
+	return NOTMUCH_STATUS_READ_ONLY_DATABASE;
+
+    if (! notmuch_database_needs_upgrade (notmuch))
+	return NOTMUCH_STATUS_SUCCESS;
+
+    old_features = notmuch->features;
+
+    if (progress_notify) {
+	/* Set up our handler for SIGALRM */
+	memset (&action, 0, sizeof (struct sigaction));
+	action.sa_handler = handle_sigalrm;
+	sigemptyset (&action.sa_mask);
+	action.sa_flags = SA_RESTART;
+	sigaction (SIGALRM, &action, NULL);
+
+	/* Then start a timer to send SIGALRM once per second. */
+	timerval.it_interval.tv_sec = 1;
+	timerval.it_interval.tv_usec = 0;
+	timerval.it_value.tv_sec = 1;
+	timerval.it_value.tv_usec = 0;
+	setitimer (ITIMER_REAL, &timerval, NULL);
+
+	timer_is_active = true;
+    }
+
+    try {
+	status = _convert_database (notmuch, progress_notify, closure, &in_transaction);
+    } catch (const Xapian::Error &error) {
+	_notmuch_database_log (notmuch, "A Xapian exception occurred upgrading database: %s.\n",
+			       error.get_msg ().c_str ());
+	notmuch->exception_reported = true;
+	status = NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
+
+    if (status) {
+	/* The database still has the old format. */
+	notmuch->features = old_features;
+	if (in_transaction) {
+	    try {
+		notmuch->writable_xapian_db->cancel_transaction ();
+	    } catch (const Xapian::Error &error) {
+		_notmuch_database_log (notmuch, "A Xapian exception occurred cancelling upgrade: %s.\n",
+				       error.get_msg ().c_str ());
+		notmuch->exception_reported = true;
+	    }
+	}
+    }
 
     if (timer_is_active) {
 	/* Now stop the timer. */
@@ -1109,10 +1154,6 @@ notmuch_database_upgrade (notmuch_database_t *notmuch,
 	sigaction (SIGALRM, &action, NULL);
     }
 
-    if (query)
-	notmuch_query_destroy (query);
-
-    talloc_free (local);
     return status;
 }
 
-- 
2.43.0


From 9c0d62c72862c74c9367dc0a291a360037d5f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:54 +0000
Subject: [PATCH 39/47] fix: show, reply: do not crash on an empty
 message/rfc822 part

GMime gives no message for such a part; show it as a part without
content.
---
 mime-node.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mime-node.c b/mime-node.c
index 1c5d619..6967dda 100644
--- a/mime-node.c
+++ b/mime-node.c
@@ -374,9 +374,15 @@ _mime_node_set_up_part (mime_node_t *node, GMimeObject *part, int numchild)
 	/* Promote part to an envelope and open it */
 	GMimeMessagePart *message_part = GMIME_MESSAGE_PART (part);
 	GMimeMessage *message = g_mime_message_part_get_message (message_part);
-	node->envelope_part = message_part;
-	node->part = GMIME_OBJECT (message);
-	node->nchildren = 1;
+	if (message) {
+	    node->envelope_part = message_part;
+	    node->part = GMIME_OBJECT (message);
+	    node->nchildren = 1;
+	} else {
+	    /* There is nothing in it: show it as a part without content. */
+	    node->part = part;
+	    node->nchildren = 0;
+	}
     } else {
 	fprintf (stderr, "Warning: Unknown mime part type: %s.\n",
 		 g_type_name (G_OBJECT_TYPE (part)));
-- 
2.43.0


From d60e6edb1f4fbc3ce1056ea22567308c2059a5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:40 +0000
Subject: [PATCH 40/47] fix: lib: no crash opening or creating a database
 without HOME

_xdg_dir gives NULL when HOME is unset; also canonicalizing the
database path can fail.
---
 lib/open.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/open.cc b/lib/open.cc
index ef293c9..1d7db61 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -211,12 +211,11 @@ _choose_database_path (notmuch_database_t *notmuch,
     }
     if (! *database_path) {
 	*database_path = _xdg_dir (notmuch, "XDG_DATA_HOME", ".local/share", profile);
-	status = _db_dir_exists (*database_path, message);
-	if (status) {
+	if (*database_path && _db_dir_exists (*database_path, message))
 	    *database_path = NULL;
-	} else {
+
+	if (*database_path)
 	    notmuch->params |= NOTMUCH_PARAM_SPLIT;
-	}
     }
 
     if (! *database_path) {
@@ -294,6 +293,8 @@ _create_database_path (notmuch_database_t *notmuch,
 
     if (! *database_path) {
 	*database_path = _xdg_dir (notmuch, "XDG_DATA_HOME", ".local/share", profile);
+	if (! *database_path)
+	    return NOTMUCH_STATUS_NO_DATABASE;
 	notmuch->params |= NOTMUCH_PARAM_SPLIT;
     }
 
@@ -759,7 +760,7 @@ notmuch_database_create_with_config (const char *database_path,
 	    g_key_file_get_string (key_file, "database", "mail_root", NULL));
 	char *db_path = notmuch_canonicalize_file_name (database_path);
 
-	if (mail_root && (0 != strcmp (mail_root, db_path)))
+	if (mail_root && db_path && (0 != strcmp (mail_root, db_path)))
 	    notmuch->params |= NOTMUCH_PARAM_SPLIT;
 
 	free (mail_root);
-- 
2.43.0


From 3fb56ac717266fab724424404da96ed2d9809cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:51 +0000
Subject: [PATCH 41/47] fix: lib: iterating over properties that could not be
 read ends at once

notmuch_message_get_properties gives NULL then, as other getters do
whose iterators accept it.
---
 lib/string-map.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/string-map.c b/lib/string-map.c
index 99bc2ea..a2a0872 100644
--- a/lib/string-map.c
+++ b/lib/string-map.c
@@ -204,7 +204,7 @@ _notmuch_string_map_iterator_create (notmuch_string_map_t *map, const char *key,
 bool
 _notmuch_string_map_iterator_valid (notmuch_string_map_iterator_t *iterator)
 {
-    if (iterator->current == NULL)
+    if (iterator == NULL || iterator->current == NULL)
 	return false;
 
     /* sentinel */
-- 
2.43.0


From 2ff80098134c62a1c8adf79925cd91d9da767ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:44 +0000
Subject: [PATCH 42/47] fix: lib: collecting tags fails when the tags of a
 message cannot be read

It used the missing list.
---
 lib/messages.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/messages.c b/lib/messages.c
index eec0a16..e112402 100644
--- a/lib/messages.c
+++ b/lib/messages.c
@@ -172,6 +172,12 @@ notmuch_messages_collect_tags (notmuch_messages_t *messages)
 
     while ((msg = notmuch_messages_get (messages))) {
 	msg_tags = notmuch_message_get_tags (msg);
+	if (msg_tags == NULL) {
+	    notmuch_message_destroy (msg);
+	    g_hash_table_destroy (htable);
+	    talloc_free (tags);
+	    return NULL;
+	}
 	while ((tag = notmuch_tags_get (msg_tags))) {
 	    g_hash_table_insert (htable, xstrdup (tag), NULL);
 	    notmuch_tags_move_to_next (msg_tags);
-- 
2.43.0


From 4d87bc9a7d21587122344471704c2d6890137090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:29 +0000
Subject: [PATCH 43/47] fix: lib: put the database back when the compacted one
 cannot be moved into place

---
 lib/database.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/database.cc b/lib/database.cc
index c1ad2aa..672fc40 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -630,7 +630,7 @@ notmuch_database_compact_db (notmuch_database_t *notmuch,
     notmuch_status_t ret = NOTMUCH_STATUS_SUCCESS;
     struct stat statbuf;
     bool keep_backup;
-    char *message;
+    char *message = NULL;
 
     ret = _notmuch_database_ensure_writable (notmuch);
     if (ret)
@@ -701,6 +701,10 @@ notmuch_database_compact_db (notmuch_database_t *notmuch,
     if (rename (compact_xapian_path, xapian_path)) {
 	_notmuch_database_log (notmuch, "Error moving %s to %s: %s\n",
 			       compact_xapian_path, xapian_path, strerror (errno));
+	/* Don't leave the user without a database. */
+	if (rename (backup_path, xapian_path))
+	    _notmuch_database_log_append (notmuch, "Error moving %s back to %s: %s\n",
+					  backup_path, xapian_path, strerror (errno));
 	ret = NOTMUCH_STATUS_FILE_ERROR;
 	goto DONE;
     }
-- 
2.43.0


From cdaa495654aabe37326e0e3125d59e2eeadb9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:22 +0000
Subject: [PATCH 44/47] fix: python-cffi: map every failure status to an
 exception

NotmuchError(status) raised a KeyError instead of a NotmuchError for
NOTMUCH_STATUS_NO_MAIL_ROOT, NOTMUCH_STATUS_CLOSED_DATABASE and the
three crypto protocol statuses.
---
 bindings/python-cffi/notmuch2/_errors.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bindings/python-cffi/notmuch2/_errors.py b/bindings/python-cffi/notmuch2/_errors.py
index 17c3ad9..942d5d1 100644
--- a/bindings/python-cffi/notmuch2/_errors.py
+++ b/bindings/python-cffi/notmuch2/_errors.py
@@ -58,6 +58,16 @@ class NotmuchError(Exception):
                 DatabaseExistsError,
             capi.lib.NOTMUCH_STATUS_BAD_QUERY_SYNTAX:
                 QuerySyntaxError,
+            capi.lib.NOTMUCH_STATUS_MALFORMED_CRYPTO_PROTOCOL:
+                MalformedCryptoProtocolError,
+            capi.lib.NOTMUCH_STATUS_FAILED_CRYPTO_CONTEXT_CREATION:
+                FailedCryptoContextCreationError,
+            capi.lib.NOTMUCH_STATUS_UNKNOWN_CRYPTO_PROTOCOL:
+                UnknownCryptoProtocolError,
+            capi.lib.NOTMUCH_STATUS_NO_MAIL_ROOT:
+                NoMailRootError,
+            capi.lib.NOTMUCH_STATUS_CLOSED_DATABASE:
+                ClosedDatabaseError,
         }
         return types[status]
 
@@ -107,6 +117,11 @@ class NoConfigError(NotmuchError): pass
 class NoDatabaseError(NotmuchError): pass
 class DatabaseExistsError(NotmuchError): pass
 class QuerySyntaxError(NotmuchError): pass
+class MalformedCryptoProtocolError(NotmuchError): pass
+class FailedCryptoContextCreationError(NotmuchError): pass
+class UnknownCryptoProtocolError(NotmuchError): pass
+class NoMailRootError(NotmuchError): pass
+class ClosedDatabaseError(NotmuchError): pass
 
 class ObjectDestroyedError(NotmuchError):
     """The object has already been destroyed and it's memory freed.
-- 
2.43.0


From 4a9a6dd969ef9a316abf528347ba9fa31b69a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:22 +0000
Subject: [PATCH 45/47] fix: python-cffi: raise the library's error when
 setting decrypt_policy fails

The setter named a variable that does not exist, so a NameError hid
the status.
---
 bindings/python-cffi/notmuch2/_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python-cffi/notmuch2/_database.py b/bindings/python-cffi/notmuch2/_database.py
index d7485b4..bcffdb3 100644
--- a/bindings/python-cffi/notmuch2/_database.py
+++ b/bindings/python-cffi/notmuch2/_database.py
@@ -853,4 +853,4 @@ class IndexOptions(base.NotmuchObject):
         ret = capi.lib.notmuch_indexopts_set_decrypt_policy(
             self._opts_p, val.value)
         if ret != capi.lib.NOTMUCH_STATUS_SUCCESS:
-            raise errors.NotmuchError(ret, msg)
+            raise errors.NotmuchError(ret)
-- 
2.43.0


From 896cfb189641ac3c94646553c2ff4f1ff8f2e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:22 +0000
Subject: [PATCH 46/47] fix: python-cffi: raise an error when an item cannot be
 read

notmuch_messages_get and notmuch_threads_get return NULL when the
message or thread cannot be read.  The iterators wrapped the NULL
pointer in an object whose first use crashed the interpreter.
---
 bindings/python-cffi/notmuch2/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python-cffi/notmuch2/_base.py b/bindings/python-cffi/notmuch2/_base.py
index 1cf03c8..416975c 100644
--- a/bindings/python-cffi/notmuch2/_base.py
+++ b/bindings/python-cffi/notmuch2/_base.py
@@ -227,6 +227,8 @@ class NotmuchIter(NotmuchObject, collections.abc.Iterator):
             raise StopIteration()
         obj_p = self._fn_get(self._iter_p)
         self._fn_next(self._iter_p)
+        if obj_p == capi.ffi.NULL:
+            raise errors.NullPointerError()
         return obj_p
 
     def __repr__(self):
-- 
2.43.0


From d3f99ccfa06cd2b4d5dbda6a2c4930797c9909a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:29 +0000
Subject: [PATCH 47/47] fix: python-cffi: do not ignore a failure to exclude a
 tag

A query whose exclude tags could not be added was run without them.
---
 bindings/python-cffi/notmuch2/_build.py    | 1 +
 bindings/python-cffi/notmuch2/_database.py | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python-cffi/notmuch2/_build.py b/bindings/python-cffi/notmuch2/_build.py
index 65d7dcb..624f890 100644
--- a/bindings/python-cffi/notmuch2/_build.py
+++ b/bindings/python-cffi/notmuch2/_build.py
@@ -46,6 +46,7 @@ ffibuilder.cdef(
         NOTMUCH_STATUS_UNSUPPORTED_OPERATION,
         NOTMUCH_STATUS_UPGRADE_REQUIRED,
         NOTMUCH_STATUS_PATH_ERROR,
+        NOTMUCH_STATUS_IGNORED,
         NOTMUCH_STATUS_ILLEGAL_ARGUMENT,
         NOTMUCH_STATUS_MALFORMED_CRYPTO_PROTOCOL,
         NOTMUCH_STATUS_FAILED_CRYPTO_CONTEXT_CREATION,
diff --git a/bindings/python-cffi/notmuch2/_database.py b/bindings/python-cffi/notmuch2/_database.py
index bcffdb3..80816a1 100644
--- a/bindings/python-cffi/notmuch2/_database.py
+++ b/bindings/python-cffi/notmuch2/_database.py
@@ -607,14 +607,19 @@ class Database(base.NotmuchObject):
         query_p = capi.lib.notmuch_query_create(self._db_p, query)
         if query_p == capi.ffi.NULL:
             raise errors.OutOfMemoryError()
+        query_obj = querymod.Query(self, query_p)
         capi.lib.notmuch_query_set_omit_excluded(query_p, omit_excluded.value)
         capi.lib.notmuch_query_set_sort(query_p, sort.value)
         if exclude_tags is not None:
             for tag in exclude_tags:
                 if isinstance(tag, str):
                     tag = tag.encode('utf-8')
-                capi.lib.notmuch_query_add_tag_exclude(query_p, tag)
-        return querymod.Query(self, query_p)
+                ret = capi.lib.notmuch_query_add_tag_exclude(query_p, tag)
+                ok = [capi.lib.NOTMUCH_STATUS_SUCCESS,
+                      capi.lib.NOTMUCH_STATUS_IGNORED]
+                if ret not in ok:
+                    raise errors.NotmuchError(ret)
+        return query_obj
 
     def messages(self, query, *,
                  omit_excluded=EXCLUDE.TRUE,
-- 
2.43.0

