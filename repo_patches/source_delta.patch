From a2c1be1db1a8d037d59ada74b99dc954f1fc1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:28 +0000
Subject: [PATCH 01/39] fix: make sure a saved state is complete and on disk
 before it replaces the old one

---
 preload-src/src/handling/state_io.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 226c29f..56bddbf 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -669,6 +669,20 @@ preload_state_write_file (const char *statefile)
 
   f = g_io_channel_unix_new (fd);
   errmsg = write_state (f);
+  if (!errmsg) {
+    /* what is still buffered must reach the disk before the old file is
+     * replaced, or a full disk or a crash leaves a truncated state behind */
+    GError *err = NULL;
+    GIOStatus st;
+
+    while (G_IO_STATUS_AGAIN == (st = g_io_channel_flush (f, &err)))
+      g_clear_error (&err);
+    if (G_IO_STATUS_NORMAL != st)
+      errmsg = g_strdup (err ? err->message : "write error");
+    g_clear_error (&err);
+    if (!errmsg && 0 > fsync (fd))
+      errmsg = g_strdup_printf ("fsync failed: %s", strerror (errno));
+  }
   g_io_channel_unref (f);
   
   if (errmsg) {
-- 
2.43.0


From 82a1b1598b68d437f6d83847ebdde90c0e6b6ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:29 +0000
Subject: [PATCH 02/39] fix: read file names of any length from the state file

---
 preload-src/src/handling/state_io.c | 31 +++++++++++++++++------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 56bddbf..0605ddc 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -51,6 +51,9 @@
 #define READ_DUPLICATE_INDEX_ERROR	"duplicate index"
 #define READ_DUPLICATE_OBJECT_ERROR	"duplicate object"
 
+/* the file name of a record is everything from here to the next blank */
+#define RECORD_URI(rc, n) ((rc)->line[(n) + strcspn ((rc)->line + (n), " \t\r\n")] = '\0', (rc)->line + (n))
+
 typedef struct _read_context_t
 {
   char *line;
@@ -60,7 +63,6 @@ typedef struct _read_context_t
   GHashTable *exes;
   gpointer data;
   GError *err;
-  char filebuf[FILELEN];
 } read_context_t;
 
 
@@ -75,15 +77,16 @@ read_map (read_context_t *rc)
   long offset, length;
   char *path;
   long long t_update_time;
+  int n = 0;
 
-  if (6 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %"FILELENSTR"s",
-		  &i, &t_update_time, &offset, &length, &expansion, rc->filebuf)) {
+  if (5 > sscanf (rc->line,
+		  "%" G_GINT64_FORMAT " %lld %lu %lu %d %n",
+		  &i, &t_update_time, &offset, &length, &expansion, &n) || !n) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
   }
 
-  path = g_filename_from_uri (rc->filebuf, NULL, &(rc->err));
+  path = g_filename_from_uri (RECORD_URI (rc, n), NULL, &(rc->err));
   if (!path)
     return;
 
@@ -116,20 +119,21 @@ read_badexe (read_context_t *rc)
 {
   int size;
   int expansion;
+  int n = 0;
   char *path;
 
   /* we do not read-in badexes.  let's clean them up on every start, give them
    * another chance! */
   return;
 
-  if (3 > sscanf (rc->line,
-		  "%d %d %"FILELENSTR"s",
-		  &size, &expansion, rc->filebuf)) {
+  if (2 > sscanf (rc->line,
+		  "%d %d %n",
+		  &size, &expansion, &n) || !n) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
   }
 
-  path = g_filename_from_uri (rc->filebuf, NULL, &(rc->err));
+  path = g_filename_from_uri (RECORD_URI (rc, n), NULL, &(rc->err));
   if (!path)
     return;
 
@@ -152,15 +156,16 @@ read_exe (read_context_t *rc)
   // For now, let's assume we want to read them as integers but store in time_t, or parse into a temp 64-bit var.
   // Let's use temporary variables for scanning to be safe against size mismatches.
   long long t_update_time, t_time;
+  int n = 0;
 
-  if (5 > sscanf (rc->line,
-		  "%" G_GINT64_FORMAT " %lld %lld %d %"FILELENSTR"s",
-		  &i, &t_update_time, &t_time, &expansion, rc->filebuf)) {
+  if (4 > sscanf (rc->line,
+		  "%" G_GINT64_FORMAT " %lld %lld %d %n",
+		  &i, &t_update_time, &t_time, &expansion, &n) || !n) {
     rc->errmsg = READ_SYNTAX_ERROR;
     return;
   }
 
-  path = g_filename_from_uri (rc->filebuf, NULL, &(rc->err));
+  path = g_filename_from_uri (RECORD_URI (rc, n), NULL, &(rc->err));
   if (!path)
     return;
 
-- 
2.43.0


From 3facbdd8454b545d07e039c5fc0270052d2a1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:33 +0000
Subject: [PATCH 03/39] fix: do not crash or corrupt memory on inconsistent
 records in the state file

---
 preload-src/src/algorithm/markov.c  |  6 +++---
 preload-src/src/algorithm/prophet.c |  2 ++
 preload-src/src/algorithm/vomm.c    | 16 ++++++++++++++--
 preload-src/src/handling/state_io.c | 16 +++++++++++++---
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/preload-src/src/algorithm/markov.c b/preload-src/src/algorithm/markov.c
index 437784d..685821a 100644
--- a/preload-src/src/algorithm/markov.c
+++ b/preload-src/src/algorithm/markov.c
@@ -173,7 +173,7 @@ preload_markov_correlation (preload_markov_t *markov)
   b = markov->b->time;
   ab = markov->time;
 
-  if (a == 0 || a == t || b == 0 || b == t)
+  if (a <= 0 || a >= t || b <= 0 || b >= t)
     correlation = 0;
   else {
     numerator = ((double)t*ab) - ((double)a * b);
@@ -181,8 +181,8 @@ preload_markov_correlation (preload_markov_t *markov)
     correlation = numerator / sqrt (denominator2);
   }
   
-  g_assert (fabs (correlation) <= 1.00001);
-  return correlation;
+  /* times read from a damaged state file may contradict each other */
+  return CLAMP (correlation, -1, 1);
 }
 
 
diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 270df5c..199b331 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -90,6 +90,8 @@ markov_bid_for_exe (preload_markov_t *markov,
   correlation = fabs (correlation);
 
   p_runs = correlation * p_state_change * p_y_runs_next;
+  if (!(p_runs < 1)) /* inconsistent counts */
+    p_runs = 1 - 1e-9;
 
   y->lnprob += log (1 - p_runs);
 }
diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 77d6d06..1fcee5a 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -478,7 +478,7 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         g_hash_table_insert(import_node_map, GINT_TO_POINTER(0), vomm_system.root);
     }
 
-    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, GINT_TO_POINTER((gint)parent_id));
+    vomm_node_t *parent_node = g_hash_table_lookup(import_node_map, (gpointer)(gintptr)parent_id);
     if (!parent_node) {
         g_warning("[VOMM] Orphan node id=%" G_GINT64_FORMAT ", parent=%" G_GINT64_FORMAT " not found. Skipping.", id, parent_id);
         return;
@@ -489,6 +489,18 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
         return;
     }
 
+    /* A second node with the same id or for the same child would free the first one
+     * while it is still referenced, and no real tree is deeper than the limit */
+    int depth = 1;
+    for (vomm_node_t *up = parent_node; up->parent; up = up->parent)
+        depth++;
+    if (count < 0 || depth > MAX_VOMM_DEPTH ||
+        g_hash_table_contains(import_node_map, (gpointer)(gintptr)id) ||
+        g_hash_table_contains(parent_node->children, exe->path)) {
+        g_warning("[VOMM] Node id=%" G_GINT64_FORMAT " is inconsistent. Skipping.", id);
+        return;
+    }
+
     /* Create the node */
     vomm_node_t *node = vomm_node_new(exe, parent_node);
     node->count = count;
@@ -500,7 +512,7 @@ void vomm_import_node(gint64 id, preload_exe_t *exe, int count, gint64 parent_id
     g_hash_table_insert(parent_node->children, g_strdup(exe->path), node);
 
     /* Remember this node for future children */
-    g_hash_table_insert(import_node_map, GINT_TO_POINTER((gint)id), node);
+    g_hash_table_insert(import_node_map, (gpointer)(gintptr)id, node);
 }
 
 void vomm_import_done(void) {
diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 0605ddc..f0b77d4 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -86,6 +86,11 @@ read_map (read_context_t *rc)
     return;
   }
 
+  if (offset < 0 || length < 0 || length > G_MAXLONG - offset) {
+    rc->errmsg = READ_SYNTAX_ERROR;
+    return;
+  }
+
   path = g_filename_from_uri (RECORD_URI (rc, n), NULL, &(rc->err));
   if (!path)
     return;
@@ -241,10 +246,15 @@ read_markov (read_context_t *rc)
 
   a = g_hash_table_lookup (rc->exes, (gpointer)ia);
   b = g_hash_table_lookup (rc->exes, (gpointer)ib);
-  if (!a || !b) {
+  if (!a || !b || a == b) {
     rc->errmsg = READ_INDEX_ERROR;
     return;
   }
+  for (n = 0; n < (int)a->markovs->len; n++)
+    if (markov_other_exe ((preload_markov_t *)g_ptr_array_index (a->markovs, n), a) == b) {
+      rc->errmsg = READ_DUPLICATE_OBJECT_ERROR;
+      return;
+    }
 
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
@@ -253,7 +263,7 @@ read_markov (read_context_t *rc)
     double x;
     if (1 > sscanf (rc->line,
 		    "%lg%n",
-		    &x, &n)) {
+		    &x, &n) || !(x >= 0 && x <= G_MAXINT)) {
       rc->errmsg = READ_SYNTAX_ERROR;
       return;
     }
@@ -266,7 +276,7 @@ read_markov (read_context_t *rc)
       int x;
       if (1 > sscanf (rc->line,
 		      "%d%n",
-		      &x, &n)) {
+		      &x, &n) || x < 0) {
 	rc->errmsg = READ_SYNTAX_ERROR;
 	return;
       }
-- 
2.43.0


From f5f12518645eaae74866b41a0ba08ab3425880b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 04/39] fix: keep the loaded launch tree when the daemon starts

preload_state_run() replaced the tree just read from the state file with an
empty one, so the sequence model was lost (and re-estimated from the pair
statistics) at every start.  Processes that were merely running at start-up
are no launches and are not recorded as such.
---
 preload-src/src/algorithm/vomm.c |  5 +++++
 preload-src/src/algorithm/vomm.h |  2 ++
 preload-src/src/handling/state.c | 15 ++-------------
 3 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 1fcee5a..27cb454 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -67,6 +67,11 @@ gboolean vomm_init(void) {
     return TRUE;
 }
 
+void vomm_ensure(void) {
+    if (!vomm_system.root) vomm_init();
+    if (g_hash_table_size(vomm_system.root->children) == 0) vomm_hydrate_from_state();
+}
+
 void vomm_cleanup(void) {
     if (vomm_system.root) {
         vomm_node_free(vomm_system.root);
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 18e552c..0a232df 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -21,6 +21,8 @@ typedef struct _vomm_system_t vomm_system_t;
 
 /* Core Functions */
 gboolean vomm_init(void);
+/* Make sure there is a model to train; one without any launch is hydrated */
+void vomm_ensure(void);
 void vomm_cleanup(void);
 
 /* 
diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 04adadd..12d13ac 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -62,11 +62,6 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   if (exe) {
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
-    
-    /* VOMM Update Hook: Record execution event */
-    if (preload_is_vomm_algorithm()) {
-        vomm_update(exe);
-    }
   }
 }
 
@@ -242,14 +237,8 @@ preload_state_autosave (gpointer G_GNUC_UNUSED user_data)
 void
 preload_state_run (const char *statefile)
 {
-  if (preload_is_vomm_algorithm()) {
-      if (!vomm_init()) {
-          g_warning("Failed to initialize VOMM algorithm");
-      } else {
-          /* VOMM starts empty; hydrate it from the loaded legacy state */
-          vomm_hydrate_from_state();
-      }
-  }
+  if (preload_is_vomm_algorithm())
+      vomm_ensure();
   g_timeout_add (0, preload_state_tick, NULL);
   if (statefile) {
     autosave_statefile = g_strdup (statefile);
-- 
2.43.0


From f516d3e2dfc37771ed8050ae5a45b3e7e5d86036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:41 +0000
Subject: [PATCH 05/39] fix: make the sequence predictor usable when a reload
 switches to it

When the daemon was started with the Markov predictor there was no launch
tree, so after a reload that selects VOMM nothing was learned or predicted.
---
 preload-src/src/daemon/preload.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 7900f7e..26d60fc 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -29,6 +29,7 @@
 #include "conf.h"
 #include "state.h"
 #include "context.h"
+#include "vomm.h"
 
 #include <signal.h>
 #include <grp.h>
@@ -92,6 +93,8 @@ sig_handler_sync (gpointer data)
   switch (GPOINTER_TO_INT (data)) {
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
+      if (preload_is_vomm_algorithm ())
+        vomm_ensure ();
       preload_log_reopen (ctx->logfile);
       break;
     case SIGUSR1:
-- 
2.43.0


From c1072a98fc355bf385339e3f62da2dad4fcef172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:45 +0000
Subject: [PATCH 06/39] fix: limit the depth of the launch tree as documented

The current context moved one level down at every launch and never went
back, so the tree became one chain as long as the daemon's history.
---
 preload-src/src/algorithm/vomm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index 27cb454..cd5f527 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -118,7 +118,10 @@ void vomm_update(preload_exe_t *exe) {
        In a "pure" VOMM we'd insert all suffixes, but here we act more like a PST/PSA. */
     
     /* Reset to root if we are too deep or lost */
-    if (!vomm_system.current_context) {
+    int depth = 0;
+    for (vomm_node_t *up = vomm_system.current_context; up && up->parent; up = up->parent)
+        depth++;
+    if (!vomm_system.current_context || depth >= MAX_VOMM_DEPTH) {
         vomm_system.current_context = vomm_system.root;
     }
 
-- 
2.43.0


From b562ac02a1bf069d7847e8c46a9ce98558f50047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:50 +0000
Subject: [PATCH 07/39] fix: make launch-tree predictions raise, not lower, the
 need of likely programs

lnprob is the logarithm of the probability that a program is NOT needed.
The context predictor added log(p) instead of log(1-p), which ranked the
least likely successor first, and the fallback boost voted against.
---
 preload-src/src/algorithm/vomm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index cd5f527..a4c2d08 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -198,7 +198,7 @@ static void predict_ppm(vomm_node_t *node) {
         const double epsilon = 1e-9;
         child_conf = fmax(epsilon, fmin(1.0 - epsilon, child_conf));
         
-        child->exe->lnprob += log(child_conf);
+        child->exe->lnprob += log(1.0 - child_conf);
         g_debug("[VOMM] PPM Prediction: Bidding on %s (conf: %.4f)", child->exe->path, child_conf);
     }
 }
@@ -223,8 +223,8 @@ static void predict_dg_fallback(vomm_node_t *node) {
         if (child->count > 0) {
              /* Weak bid for all neighbors */
              /* Add a small probability boost */
-             child->exe->lnprob += log(1.1);
-             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob += %f)", child->exe->path, log(1.1));
+             child->exe->lnprob -= log(1.1);
+             g_debug("[VOMM] Fallback Prediction: Bidding on %s (lnprob -= %f)", child->exe->path, log(1.1));
         }
     }
 }
-- 
2.43.0


From 32df1cdbe092df002a3c8914fb5e030848250408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 08/39] fix: forget an uninstalled program everywhere, not just
 in the table

The launch tree, its history and the lists of the last scan kept pointers to
the freed executable: use after free at the next prediction, update or save.
---
 preload-src/src/algorithm/vomm.c | 28 ++++++++++++++++++++++++++++
 preload-src/src/algorithm/vomm.h |  3 +++
 preload-src/src/handling/exe.c   |  4 ++++
 preload-src/src/monitoring/spy.c |  8 ++++++++
 preload-src/src/monitoring/spy.h |  3 +++
 5 files changed, 46 insertions(+)

diff --git a/preload-src/src/algorithm/vomm.c b/preload-src/src/algorithm/vomm.c
index a4c2d08..3c2f6f9 100644
--- a/preload-src/src/algorithm/vomm.c
+++ b/preload-src/src/algorithm/vomm.c
@@ -161,6 +161,34 @@ void vomm_update(preload_exe_t *exe) {
     }
 }
 
+/* Drop the nodes of an executable, and what is below them, everywhere below node */
+static void vomm_node_forget_exe(vomm_node_t *node, preload_exe_t *exe) {
+    GHashTableIter iter;
+    gpointer value;
+
+    g_hash_table_remove(node->children, exe->path);
+    g_hash_table_iter_init(&iter, node->children);
+    while (g_hash_table_iter_next(&iter, NULL, &value))
+        vomm_node_forget_exe((vomm_node_t*)value, exe);
+}
+
+void vomm_forget_exe(preload_exe_t *exe) {
+    vomm_node_t *node;
+
+    if (!exe || !vomm_system.root) return;
+
+    /* Back to the root if the context is about to disappear */
+    for (node = vomm_system.current_context; node; node = node->parent) {
+        if (node->exe == exe) {
+            vomm_system.current_context = vomm_system.root;
+            break;
+        }
+    }
+    vomm_system.history = g_list_remove_all(vomm_system.history, exe);
+    vomm_system.history_length = g_list_length(vomm_system.history);
+    vomm_node_forget_exe(vomm_system.root, exe);
+}
+
 /* PPM Prediction Logic */
 static void predict_ppm(vomm_node_t *node) {
     GHashTableIter iter;
diff --git a/preload-src/src/algorithm/vomm.h b/preload-src/src/algorithm/vomm.h
index 0a232df..40902fc 100644
--- a/preload-src/src/algorithm/vomm.h
+++ b/preload-src/src/algorithm/vomm.h
@@ -34,6 +34,9 @@ void vomm_cleanup(void);
  */
 void vomm_update(preload_exe_t *exe);
 
+/* Drops everything known about an executable that is about to be freed. */
+void vomm_forget_exe(preload_exe_t *exe);
+
 /* 
  * Predicts the next likely files to be needed based on the current context.
  * Uses Hybrid approach:
diff --git a/preload-src/src/handling/exe.c b/preload-src/src/handling/exe.c
index 88983d4..eb5ae97 100644
--- a/preload-src/src/handling/exe.c
+++ b/preload-src/src/handling/exe.c
@@ -26,6 +26,8 @@
 #include "map.h"
 #include "markov.h"
 #include "state.h"
+#include "spy.h"
+#include "vomm.h"
 
 
 /* Check if executable is currently running */
@@ -178,6 +180,8 @@ preload_state_unregister_exe (preload_exe_t *exe)
   g_return_if_fail (exe && exe->path);
   g_return_if_fail (g_hash_table_lookup (state->exes, exe->path));
 
+  preload_spy_forget_exe (exe);
+  vomm_forget_exe (exe);
   g_hash_table_steal (state->exes, exe->path);
 
   preload_exe_free (exe);
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index b29dfc2..6d3f099 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -191,6 +191,14 @@ preload_spy_scan (gpointer data)
   new_running_exes = NULL;  /* Break alias to prevent use-after-free on next scan */
 }
 
+/* exe is about to be freed, between scan and update_model possibly */
+void
+preload_spy_forget_exe (preload_exe_t *exe)
+{
+  state_changed_exes = g_slist_remove_all (state_changed_exes, exe);
+  state->running_exes = g_slist_remove_all (state->running_exes, exe);
+}
+
 /* update_model is run after scan, after some delay (half a cycle) */
 
 void
diff --git a/preload-src/src/monitoring/spy.h b/preload-src/src/monitoring/spy.h
index 2d7f366..e0082ba 100644
--- a/preload-src/src/monitoring/spy.h
+++ b/preload-src/src/monitoring/spy.h
@@ -1,9 +1,12 @@
 #ifndef SPY_H
 #define SPY_H
 
+#include "exe.h"
+
 #include <glib.h>
 
 void preload_spy_scan (gpointer data);
 void preload_spy_update_model (gpointer data);
+void preload_spy_forget_exe (preload_exe_t *exe);
 
 #endif
-- 
2.43.0


From 3b49b24e760b7f101d34cdda68de5f4432de8557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:09 +0000
Subject: [PATCH 09/39] fix: do not shrink a merged read-ahead request

A region lying inside the one before it shortened the merged request to its
own end, so the tail of the larger region was never read.
---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index c229e14..adf1fe4 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -311,7 +311,8 @@ preload_readahead (preload_map_t **files, int file_count)
 	  0 == strcmp (path, files[i]->path))
         {
 	  /* merge requests */
-	  length = files[i]->offset + files[i]->length - offset;
+	  if (files[i]->offset + files[i]->length > offset + length)
+	    length = files[i]->offset + files[i]->length - offset;
 	  continue;
 	}
 
-- 
2.43.0


From 7f381c761f7745ade20774fb6d463aff4195a8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 10/39] fix: do not wait for ever for helpers that are already
 gone

with SIGCHLD ignored (inherited from the parent) wait() fails with ECHILD
and the daemon span in wait_for_children().
---
 preload-src/src/handling/readahead.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index adf1fe4..171a3bb 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -118,6 +118,8 @@ wait_for_children (void)
       int status;
       if (wait (&status) > 0)
 	procs--;
+      else if (errno == ECHILD)
+	procs = 0; /* reaped by somebody else */
     }
 }
 
-- 
2.43.0


From e73bce379456c3070814516e60076de437a847d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:19 +0000
Subject: [PATCH 11/39] fix: handle signals safely

The signal handler called g_timeout_add(), which allocates memory and takes
locks: a signal at the wrong moment deadlocked or corrupted the daemon.  It
now only notes the signal and wakes up the main loop through a pipe.
---
 preload-src/src/daemon/preload.c | 39 ++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 26d60fc..62b037a 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -31,6 +31,7 @@
 #include "context.h"
 #include "vomm.h"
 
+#include <glib-unix.h>
 #include <signal.h>
 #include <grp.h>
 
@@ -87,10 +88,13 @@ daemonize (void)
 /* signal handling */
 
 
-static gboolean
-sig_handler_sync (gpointer data)
+static int sig_pipe[2];
+static volatile sig_atomic_t sig_pending[NSIG];
+
+static void
+handle_signal (int sig)
 {
-  switch (GPOINTER_TO_INT (data)) {
+  switch (sig) {
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
       if (preload_is_vomm_algorithm ())
@@ -109,18 +113,43 @@ sig_handler_sync (gpointer data)
       g_main_loop_quit (ctx->main_loop);
       break;
   }
-  return FALSE;
 }
 
+static gboolean
+sig_handler_sync (gint fd, GIOCondition G_GNUC_UNUSED condition, gpointer G_GNUC_UNUSED data)
+{
+  char buf[64];
+  int sig;
+
+  while (read (fd, buf, sizeof (buf)) > 0)
+    ;
+  for (sig = 1; sig < NSIG; sig++)
+    if (sig_pending[sig]) {
+      sig_pending[sig] = 0;
+      handle_signal (sig);
+    }
+  return TRUE;
+}
+
+/* may run at any point: only async-signal-safe calls here */
 static void
 sig_handler (int sig)
 {
-  g_timeout_add (0, sig_handler_sync, GINT_TO_POINTER (sig));
+  int saved_errno = errno;
+
+  sig_pending[sig] = 1;
+  /* if the pipe is full the main loop is going to wake up anyway */
+  write (sig_pipe[1], "", 1);
+  errno = saved_errno;
 }
 
 static void
 set_sig_handlers (void)
 {
+  if (0 > pipe2 (sig_pipe, O_CLOEXEC | O_NONBLOCK))
+    g_error ("pipe failed, exiting: %s", strerror (errno));
+  g_unix_fd_add (sig_pipe[0], G_IO_IN, sig_handler_sync, NULL);
+
   /* trap key signals */
   signal (SIGINT,  sig_handler);
   signal (SIGQUIT, sig_handler);
-- 
2.43.0


From 2238187f8e0f87010a5d4a8a2ca1168e8b9eb034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 12/39] fix: read whole lines of /proc/PID/maps

Names with blanks were cut off at the first blank, names longer than 511
bytes were cut off there, and the rest of a line longer than the buffer was
read as a line of its own.
---
 preload-src/src/monitoring/proc.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 8afe5c4..ce84ab7 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -91,7 +91,8 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
   char name[32] = {0};
   FILE *in;
   size_t size = 0;
-  char buffer[1024] = {0};
+  char *buffer = NULL;
+  size_t buffersize = 0;
 
   if (exemaps)
     *exemaps = g_ptr_array_new ();
@@ -105,16 +106,23 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       return 0;
     }
   
-  while (fgets (buffer, sizeof (buffer) - 1, in))
+  while (getline (&buffer, &buffersize, in) > 0)
     {
-      char file[FILELEN] = {0};
+      char *file;
       long start = 0, end = 0, offset = 0, length = 0;
-      int count;
+      int count, pos = 0;
 
-      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %"FILELENSTR"s",
-		      &start, &end, &offset, file);
+      count = sscanf (buffer, "%lx-%lx %*15s %lx %*x:%*x %*u %n",
+		      &start, &end, &offset, &pos);
 
-      if (count != 4 || !sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
+      if (count != 3 || !pos)
+        continue;
+
+      /* the name is the rest of the line, blanks included */
+      file = buffer + pos;
+      file[strcspn (file, "\n")] = '\0';
+
+      if (!sanitize_file (file) || !accept_file (file, conf->system.mapprefix))
         continue;
 
       length = end - start;
@@ -153,6 +161,7 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
       }
     }
 
+  free (buffer);
   fclose (in);
 
   return size;
-- 
2.43.0


From f1746573c9cb6791c73d1d0f61f477d49e5e98ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:40 +0000
Subject: [PATCH 13/39] fix: do not credit a program with the regions of
 another one

Between the scan and the reading of its maps a process can exit and its pid
be reused, or replace its program by exec.
---
 preload-src/src/monitoring/proc.c | 16 ++++++++++++++++
 preload-src/src/monitoring/proc.h |  3 +++
 preload-src/src/monitoring/spy.c  |  5 +++--
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index ce84ab7..7cae64d 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -167,6 +167,22 @@ proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps)
   return size;
 }
 
+gboolean
+proc_runs_exe (pid_t pid, const char *path)
+{
+  char name[32] = {0};
+  char exe_buffer[FILELEN] = {0};
+  int len;
+
+  g_snprintf (name, sizeof (name), "/proc/%d/exe", pid);
+  len = readlink (name, exe_buffer, sizeof (exe_buffer));
+  if (len <= 0 || len == sizeof (exe_buffer))
+    return FALSE;
+  exe_buffer[len] = '\0';
+
+  return sanitize_file (exe_buffer) && !strcmp (exe_buffer, path);
+}
+
 static gboolean
 all_digits (const char *s)
 {
diff --git a/preload-src/src/monitoring/proc.h b/preload-src/src/monitoring/proc.h
index ec98afc..90855ee 100644
--- a/preload-src/src/monitoring/proc.h
+++ b/preload-src/src/monitoring/proc.h
@@ -36,6 +36,9 @@ void proc_get_memstat (preload_memory_t *mem);
 /* returns sum of length of maps, in bytes, or 0 if failed */
 size_t proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps);
 
+/* whether process pid is running the executable path */
+gboolean proc_runs_exe (pid_t pid, const char *path);
+
 /* foreach process running, passes pid as key and exe path as value */
 void proc_foreach (GHFunc func, gpointer user_data);
 
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index 6d3f099..3c514d2 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -96,7 +96,8 @@ new_exe_callback (gpointer key, gpointer value, gpointer G_GNUC_UNUSED user_data
 
   size = proc_get_maps (pid, NULL, NULL);
 
-  if (!size) /* process died or something */
+  /* process died, or the pid runs something else by now */
+  if (!size || !proc_runs_exe (pid, path))
     return;
 
   want_it = size >= (size_t)conf->model.minsize;
@@ -106,7 +107,7 @@ new_exe_callback (gpointer key, gpointer value, gpointer G_GNUC_UNUSED user_data
     GPtrArray *exemaps;
 
     size = proc_get_maps (pid, state->maps, &exemaps);
-    if (!size) {
+    if (!size || !proc_runs_exe (pid, path)) {
       /* process just died, clean up */
       g_ptr_array_foreach (exemaps, (GFunc)preload_exemap_free, NULL);
       g_ptr_array_free (exemaps, TRUE);
-- 
2.43.0


From 82ef384cb1458e4eb2be3af8754f95c1a8f953f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:44 +0000
Subject: [PATCH 14/39] fix: measure the first dwell time of a loaded pair from
 the start of the daemon

Pairs read from the state file had change timestamp 0, so their first change
added the whole model time to the mean time in that state.
---
 preload-src/src/handling/state_io.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index f0b77d4..f3a436d 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -258,6 +258,7 @@ read_markov (read_context_t *rc)
 
   markov = preload_markov_new (a, b, FALSE);
   markov->time = time;
+  markov->change_timestamp = state->time;
 
   for (markov_state = 0; markov_state < 4; markov_state++) {
     double x;
-- 
2.43.0


From 4068fd9f6b9e228871cc3fda244980d8584665d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:49 +0000
Subject: [PATCH 15/39] fix: use the block number when sorting by block

The result of FIBMAP was overwritten with the inode number.
---
 preload-src/src/handling/readahead.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 171a3bb..b5f77d5 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -64,7 +64,8 @@ set_block(preload_map_t *file, gboolean use_inode)
 #endif
 
   /* fall back to inode number */
-  block = buf.st_ino;
+  if (!block)
+    block = buf.st_ino;
 
   file->block = block;
 
-- 
2.43.0


From de184667a91e0536e9670bad987a17d6f1a009c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:54 +0000
Subject: [PATCH 16/39] fix: honour the documented key system.processes

preload.conf and the documentation call it processes, the code maxprocs.
---
 preload-src/src/config/conf.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index ab6ed91..e987ff9 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -93,6 +93,18 @@ preload_conf_load (const char *conffile, gboolean fail)
 	  e = NULL; \
 	}
 #include "confkeys.h"
+      /* the documented name of maxprocs */
+      if (g_key_file_has_key (f, "system", "processes", NULL)) {
+	dummyconf.system.maxprocs = g_key_file_get_integer (f, "system", "processes", &e);
+	if (!e)
+	  newconf.system.maxprocs = dummyconf.system.maxprocs;
+	else {
+	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s",
+		 "system", "processes", e->message);
+	  g_error_free (e);
+	  return;
+	}
+      }
 #undef confkey
 
       g_key_file_free (f);
-- 
2.43.0


From 5b8b87e1b90376fd0839ee25b2a822548952c2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:46 +0000
Subject: [PATCH 17/39] fix: count the whole slowed-down cycle when on battery

On battery the next step comes after two cycles but the model clock was
advanced by one.
---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 12d13ac..83e9f02 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -195,7 +195,7 @@ preload_state_tick (gpointer data)
   if (preload_on_battery()) {
       g_debug("Running on battery. Skipping IO intensive operations and slowing down cycle.");
       /* Increase cycle time to save power (double the normal cycle) */
-      state->time += conf->model.cycle; 
+      state->time += conf->model.cycle * 2;
       g_timeout_add_seconds (conf->model.cycle * 2, preload_state_tick2, data);
       return FALSE;
   }
-- 
2.43.0


From c2d72861c7063b2a808259bfe14ba8cafeb4650b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:51 +0000
Subject: [PATCH 18/39] fix: use the named files wherever the daemon was
 started

After the chdir() of daemonize() relative file names given on the command
line pointed somewhere else: the state was saved, and on SIGHUP the
configuration and log file looked for, below the root directory.
---
 preload-src/src/config/cmdline.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/preload-src/src/config/cmdline.c b/preload-src/src/config/cmdline.c
index 5f8c293..9886a80 100644
--- a/preload-src/src/config/cmdline.c
+++ b/preload-src/src/config/cmdline.c
@@ -74,6 +74,20 @@ static const char *opts_default[] = {
 static void version_func (void) G_GNUC_NORETURN;
 static void help_func (gboolean err, gboolean help2man) G_GNUC_NORETURN;
 
+static void
+make_absolute (char **file)
+{
+  char *cwd, *absolute;
+
+  if (!*file || !**file || g_path_is_absolute (*file))
+    return;
+  cwd = g_get_current_dir ();
+  absolute = g_build_filename (cwd, *file, NULL);
+  g_free (cwd);
+  g_free (*file);
+  *file = absolute;
+}
+
 void
 preload_cmdline_parse (preload_ctx_t *ctx, int *argc, char ***argv)
 {
@@ -123,6 +137,11 @@ preload_cmdline_parse (preload_ctx_t *ctx, int *argc, char ***argv)
 	}
     }
 
+  /* we change to the root directory later */
+  make_absolute (&ctx->conffile);
+  make_absolute (&ctx->statefile);
+  make_absolute (&ctx->logfile);
+
   *argc -= optind;
   *argv += optind;
 }
-- 
2.43.0


From 3b72a764720e19c35922c2bfcf67af8fc55d1d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:55 +0000
Subject: [PATCH 19/39] fix: do not leak when a configuration file cannot be
 loaded

---
 preload-src/src/config/conf.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index e987ff9..c44b18c 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -65,7 +65,7 @@ preload_conf_load (const char *conffile, gboolean fail)
       f = g_key_file_new ();
       if (!g_key_file_load_from_file (f, conffile, G_KEY_FILE_NONE, &e)) {
 	g_log (G_LOG_DOMAIN, flags, "failed loading conf from %s: %s", conffile, e->message);
-	return;
+	goto fail;
       }
 
 #define get_integer(grp, key, unit) (unit * g_key_file_get_integer (f, grp, key, &e))
@@ -86,8 +86,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
-	  g_error_free (e); \
-	  return; \
+	  goto fail; \
 	} else { \
 	  g_error_free (e); \
 	  e = NULL; \
@@ -101,8 +100,7 @@ preload_conf_load (const char *conffile, gboolean fail)
 	else {
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s",
 		 "system", "processes", e->message);
-	  g_error_free (e);
-	  return;
+	  goto fail;
 	}
       }
 #undef confkey
@@ -117,6 +115,14 @@ preload_conf_load (const char *conffile, gboolean fail)
   g_free (conf->system.prediction_algorithm);
 
   *conf = newconf;
+  return;
+
+fail:
+  g_error_free (e);
+  g_key_file_free (f);
+  g_strfreev (newconf.system.mapprefix);
+  g_strfreev (newconf.system.exeprefix);
+  g_free (newconf.system.prediction_algorithm);
 }
 
 void
-- 
2.43.0


From ea71a1f2fb7aaeab2efeb2b15400699150935385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:00 +0000
Subject: [PATCH 20/39] fix: accept a configuration file that lacks a whole
 group

Missing keys mean their defaults, but a file without a [system] or [model]
group was refused.
---
 preload-src/src/config/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index c44b18c..e89321d 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -83,7 +83,8 @@ preload_conf_load (const char *conffile, gboolean fail)
 	if (!e) { \
 	  free_##type (newconf.grp.key); \
 	  newconf.grp.key = dummyconf.grp.key; \
-	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND) { \
+	} else if (e->code != G_KEY_FILE_ERROR_KEY_NOT_FOUND && \
+		   e->code != G_KEY_FILE_ERROR_GROUP_NOT_FOUND) { \
 	  g_log (G_LOG_DOMAIN, flags, "failed loading conf key %s.%s: %s", \
 		 G_STRINGIFY(grp), G_STRINGIFY(key), e->message); \
 	  goto fail; \
-- 
2.43.0


From c6d0ab7ee4e1388c619d235b325d9b64a42447b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 21/39] fix: keep cycling whatever the configured periods are

A cycle or autosave period of zero or less made the daemon spin or never run
again, a very large cycle overflowed, and a negative minsize rejected every
application.
---
 preload-src/src/config/conf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preload-src/src/config/conf.c b/preload-src/src/config/conf.c
index e89321d..6440866 100644
--- a/preload-src/src/config/conf.c
+++ b/preload-src/src/config/conf.c
@@ -110,6 +110,11 @@ preload_conf_load (const char *conffile, gboolean fail)
       g_debug ("loading conf done");
     }
 
+  /* periods that keep us going without spinning */
+  newconf.model.cycle = CLAMP (newconf.model.cycle, 1, 86400);
+  newconf.model.minsize = MAX (newconf.model.minsize, 0);
+  newconf.system.autosave = MAX (newconf.system.autosave, 1);
+
   /* free the old configuration */
   g_strfreev (conf->system.mapprefix);
   g_strfreev (conf->system.exeprefix);
-- 
2.43.0


From c4e843e9495725cb28dee865d2bb7cd083b2783b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:09 +0000
Subject: [PATCH 22/39] fix: examine rejected programs again after a reload

Programs once found too small stayed rejected until the next save although
the new configuration may accept them.
---
 preload-src/src/daemon/preload.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/daemon/preload.c b/preload-src/src/daemon/preload.c
index 62b037a..a8e240f 100644
--- a/preload-src/src/daemon/preload.c
+++ b/preload-src/src/daemon/preload.c
@@ -97,6 +97,7 @@ handle_signal (int sig)
   switch (sig) {
     case SIGHUP:
       preload_conf_load (ctx->conffile, FALSE);
+      g_hash_table_remove_all (state->bad_exes);
       if (preload_is_vomm_algorithm ())
         vomm_ensure ();
       preload_log_reopen (ctx->logfile);
-- 
2.43.0


From bc9e611aa98a713cb12bf3748675069fbb501a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:14 +0000
Subject: [PATCH 23/39] fix: look up the disk position again when the sort
 strategy changes

Block numbers and inode numbers of the two strategies were mixed.
---
 preload-src/src/handling/readahead.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index b5f77d5..2012c3e 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -24,6 +24,7 @@
 #include "readahead.h"
 #include "log.h"
 #include "conf.h"
+#include "state.h"
 
 #include <sys/ioctl.h>
 #include <sys/wait.h>
@@ -246,6 +247,13 @@ sort_by_block_or_inode (preload_map_t **files, int file_count)
 {
   int i;
   gboolean need_block = FALSE;
+  static int last_strategy = SORT_BLOCK;
+
+  /* what is cached is of no use after a switch between block and inode */
+  if ((int)conf->system.sortstrategy != last_strategy && state->maps_arr)
+    for (i=0; i<(int)state->maps_arr->len; i++)
+      ((preload_map_t *)g_ptr_array_index (state->maps_arr, i))->block = -1;
+  last_strategy = conf->system.sortstrategy;
 
   /* first see if any file doesn't have block/inode info */
   for (i=0; i<file_count; i++)
-- 
2.43.0


From 34a3f84881653dfb74029d851ed4b88bc38f777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:19 +0000
Subject: [PATCH 24/39] fix: compute the prefetch budget without integer
 overflow

Regions of terabytes, or memory figures of more than two, wrapped around.
---
 preload-src/src/algorithm/prophet.c |  6 +++---
 preload-src/src/monitoring/proc.c   |  4 ++--
 preload-src/src/monitoring/proc.h   | 26 +++++++++++++-------------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/preload-src/src/algorithm/prophet.c b/preload-src/src/algorithm/prophet.c
index 199b331..c560789 100644
--- a/preload-src/src/algorithm/prophet.c
+++ b/preload-src/src/algorithm/prophet.c
@@ -196,7 +196,7 @@ map_prob_print (preload_map_t *map)
 
 #define clamp_percent(v) ((v)>100 ? 100 : (v) < -100 ? -100 : (v))
 #define max(a,b) ((a)>(b) ? (a) : (b))
-#define kb(v) ((int)(((v) + 1023) / 1024))
+#define kb(v) ((gint64)(((v) + 1023) / 1024))
 
 /* input is the list of maps sorted on the need.
  * decide a cutoff based on memory conditions and readhead. */
@@ -204,7 +204,7 @@ void
 preload_prophet_readahead (GPtrArray *maps_arr)
 {
   int i;
-  int memavail, memavailtotal; /* in kilobytes */
+  gint64 memavail, memavailtotal; /* in kilobytes */
   preload_memory_t memstat;
   preload_map_t *map;
 
@@ -264,7 +264,7 @@ preload_prophet_readahead (GPtrArray *maps_arr)
       map_prob_print (map);
   }
 
-  g_debug ("%dkb available for preloading, using %dkb of it",
+  g_debug ("%" G_GINT64_FORMAT "kb available for preloading, using %" G_GINT64_FORMAT "kb of it",
 	   memavailtotal, memavailtotal - memavail);
 
   if (i) {
diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 7cae64d..1775b38 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -255,13 +255,13 @@ proc_foreach (GHFunc func, gpointer user_data)
 #define read_tag(tag, v) G_STMT_START {				\
 	  const char *b;					\
 	  b = strstr(buf, tag" ");				\
-	  if (b) sscanf(b, tag" %d", &(v));			\
+	  if (b) sscanf(b, tag" %" G_GINT64_FORMAT, &(v));	\
 	} G_STMT_END
 
 #define read_tag2(tag, v1, v2) G_STMT_START {			\
 	  const char *b;					\
 	  b = strstr(buf, tag" ");				\
-	  if (b) sscanf(b, tag" %d %d", &(v1), &(v2));		\
+	  if (b) sscanf(b, tag" %" G_GINT64_FORMAT " %" G_GINT64_FORMAT, &(v1), &(v2)); \
 	} G_STMT_END
 
 void
diff --git a/preload-src/src/monitoring/proc.h b/preload-src/src/monitoring/proc.h
index 90855ee..da3cc83 100644
--- a/preload-src/src/monitoring/proc.h
+++ b/preload-src/src/monitoring/proc.h
@@ -9,24 +9,24 @@ typedef struct _preload_memory_t
 
   /* all the following are in kilobytes (1024) */
 
-  int total;	/* total memory */
-  int free;	/* free memory */
-  int buffers;	/* buffers memory (block device metadata) */
-  int cached;	/* page-cache memory (file contents) */
+  gint64 total;	/* total memory */
+  gint64 free;	/* free memory */
+  gint64 buffers;	/* buffers memory (block device metadata) */
+  gint64 cached;	/* page-cache memory (file contents) */
 
   /* LRU list breakdown (Linux 2.6.28+) */
-  int active;         /* recently accessed pages */
-  int inactive;       /* less recently accessed pages */
-  int active_anon;    /* active anonymous pages (heap, stack) */
-  int inactive_anon;  /* inactive anonymous pages */
-  int active_file;    /* active file-backed pages */
-  int inactive_file;  /* inactive file-backed pages */
+  gint64 active;         /* recently accessed pages */
+  gint64 inactive;       /* less recently accessed pages */
+  gint64 active_anon;    /* active anonymous pages (heap, stack) */
+  gint64 inactive_anon;  /* inactive anonymous pages */
+  gint64 active_file;    /* active file-backed pages */
+  gint64 inactive_file;  /* inactive file-backed pages */
 
   /* Available memory (Linux 3.14+, more accurate than free+cached) */
-  int available;      /* estimate of available memory for new allocations */
+  gint64 available;      /* estimate of available memory for new allocations */
 
-  int pagein;	/* total data paged (read) in since boot */
-  int pageout;	/* total data paged (written) out since boot */
+  gint64 pagein;	/* total data paged (read) in since boot */
+  gint64 pageout;	/* total data paged (written) out since boot */
 
 } preload_memory_t;
 
-- 
2.43.0


From fbc4c59623d9415d9662c486535671267f525149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:23 +0000
Subject: [PATCH 25/39] fix: do not take SwapCached for Cached

Tags were searched anywhere in a line.
---
 preload-src/src/monitoring/proc.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index 1775b38..cfec29d 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -252,15 +252,21 @@ proc_foreach (GHFunc func, gpointer user_data)
 	  buf[len] = '\0';					\
 	} G_STMT_END
 
+#define find_tag(tag, b) G_STMT_START {				\
+	  b = strstr(buf, tag" ");				\
+	  while (b && b > buf && b[-1] != '\n')			\
+	    b = strstr(b + 1, tag" ");				\
+	} G_STMT_END
+
 #define read_tag(tag, v) G_STMT_START {				\
 	  const char *b;					\
-	  b = strstr(buf, tag" ");				\
+	  find_tag(tag, b);					\
 	  if (b) sscanf(b, tag" %" G_GINT64_FORMAT, &(v));	\
 	} G_STMT_END
 
 #define read_tag2(tag, v1, v2) G_STMT_START {			\
 	  const char *b;					\
-	  b = strstr(buf, tag" ");				\
+	  find_tag(tag, b);					\
 	  if (b) sscanf(b, tag" %" G_GINT64_FORMAT " %" G_GINT64_FORMAT, &(v1), &(v2)); \
 	} G_STMT_END
 
-- 
2.43.0


From e8634e0703d2d234b18e8b72437a641463872e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:28 +0000
Subject: [PATCH 26/39] fix: skip the scan when the process table cannot be
 opened

This was fatal; a passing shortage of file descriptors ended the daemon
without saving.
---
 preload-src/src/monitoring/proc.c | 9 ++++++---
 preload-src/src/monitoring/proc.h | 5 +++--
 preload-src/src/monitoring/spy.c  | 3 ++-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/monitoring/proc.c b/preload-src/src/monitoring/proc.c
index cfec29d..a8d8ebd 100644
--- a/preload-src/src/monitoring/proc.c
+++ b/preload-src/src/monitoring/proc.c
@@ -194,7 +194,7 @@ all_digits (const char *s)
   return TRUE;
 }
 
-void
+gboolean
 proc_foreach (GHFunc func, gpointer user_data)
 {
   DIR *proc;
@@ -202,8 +202,10 @@ proc_foreach (GHFunc func, gpointer user_data)
   pid_t selfpid = getpid ();
 
   proc = opendir ("/proc");
-  if (!proc)
-    g_error ("failed opening /proc: %s", strerror (errno));
+  if (!proc) {
+    g_critical ("failed opening /proc: %s", strerror (errno));
+    return FALSE;
+  }
 
   while ((entry = readdir (proc)))
   {
@@ -236,6 +238,7 @@ proc_foreach (GHFunc func, gpointer user_data)
   }
   
   closedir (proc);
+  return TRUE;
 }
 
 
diff --git a/preload-src/src/monitoring/proc.h b/preload-src/src/monitoring/proc.h
index da3cc83..1deebf5 100644
--- a/preload-src/src/monitoring/proc.h
+++ b/preload-src/src/monitoring/proc.h
@@ -39,7 +39,8 @@ size_t proc_get_maps (pid_t pid, GHashTable *maps, GPtrArray **exemaps);
 /* whether process pid is running the executable path */
 gboolean proc_runs_exe (pid_t pid, const char *path);
 
-/* foreach process running, passes pid as key and exe path as value */
-void proc_foreach (GHFunc func, gpointer user_data);
+/* foreach process running, passes pid as key and exe path as value.
+ * returns FALSE if the process table cannot be read. */
+gboolean proc_foreach (GHFunc func, gpointer user_data);
 
 #endif
diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index 3c514d2..defde98 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -181,7 +181,8 @@ preload_spy_scan (gpointer data)
   new_exes = g_hash_table_new_full (g_str_hash, g_str_equal, g_free, NULL);
 
   /* mark each running exe with fresh timestamp */
-  proc_foreach ((GHFunc)running_process_callback, data);
+  if (!proc_foreach ((GHFunc)running_process_callback, data))
+    return; /* what was running is taken to be still running */
   state->last_running_timestamp = state->time;
 
   /* figure out who's not running by checking their timestamp */
-- 
2.43.0


From 74b1cb6c91efe506e8ea6606b3ce71099300826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:33 +0000
Subject: [PATCH 27/39] fix: save what update_model learned after a save in
 mid-cycle

A save between scan and update_model cleared the dirty flag, and what the
update then added was not written at exit.
---
 preload-src/src/handling/state.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 83e9f02..3d537fc 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -178,6 +178,7 @@ preload_state_tick2 (gpointer data)
     g_debug ("state updating begin");
     preload_spy_update_model (data);
     state->model_dirty = FALSE;
+    state->dirty = TRUE;
     g_debug ("state updating end");
   }
 
-- 
2.43.0


From a9eb9af5274f25d6ba40f921f5c5acfe3c461c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:37 +0000
Subject: [PATCH 28/39] fix: account changes of known programs before new
 programs are added

Pairs with a new program were initialised from the times and states its
partners had before the current change.
---
 preload-src/src/monitoring/spy.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/preload-src/src/monitoring/spy.c b/preload-src/src/monitoring/spy.c
index defde98..cd24357 100644
--- a/preload-src/src/monitoring/spy.c
+++ b/preload-src/src/monitoring/spy.c
@@ -208,16 +208,16 @@ preload_spy_update_model (gpointer data)
 {
   int period;
 
-  /* register newly discovered exes */
-  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
-  g_hash_table_destroy (new_exes);
-  new_exes = NULL;  /* Prevent double-free on next scan */
-
-  /* and adjust states for those changing */
+  /* adjust states for those changing */
   g_slist_foreach (state_changed_exes, (GFunc)exe_changed_callback, data);
   g_slist_free (state_changed_exes);
   state_changed_exes = NULL;  /* Prevent double-free on next scan */
 
+  /* and register newly discovered exes */
+  g_hash_table_foreach (new_exes, (GHFunc)new_exe_callback, data);
+  g_hash_table_destroy (new_exes);
+  new_exes = NULL;  /* Prevent double-free on next scan */
+
   /* do some accounting */
   period = (int)(state->time - state->last_accounting_timestamp);
   g_hash_table_foreach (state->exes, (GHFunc)running_exe_inc_time, GINT_TO_POINTER (period));
-- 
2.43.0


From 9e4bc9cc662966bfe9b2922a22e2f7ddebc2e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:42 +0000
Subject: [PATCH 29/39] fix: refuse to start from a state file that exists but
 cannot be opened

Only EACCES was an error; after any other one the daemon started with an
empty model and later replaced the good state file with it.
---
 preload-src/src/handling/state_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index f3a436d..011351b 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -442,7 +442,7 @@ preload_state_read_file (const char *statefile)
 
   f = g_io_channel_new_file (statefile, "r", &err);
   if (!f) {
-    if (err->code == G_FILE_ERROR_ACCES) {
+    if (err->code != G_FILE_ERROR_NOENT) {
       errmsg = g_strdup_printf ("cannot open %s for reading: %s", statefile, err->message);
     } else {
       g_warning ("cannot open %s for reading, ignoring: %s", statefile, err->message);
-- 
2.43.0


From 2fe8a8e301f7202c08b617273dff267f6a796033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 30/39] fix: install the log handler before the first message
 can be fatal

A log file that cannot be opened ended the daemon with SIGTRAP and a core
dump instead of an exit status.
---
 preload-src/src/utils/log.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index ac581bd..b1b0eb8 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -62,6 +62,8 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
 void
 preload_log_init (const char *logfile)
 {
+  g_log_set_default_handler (preload_log, NULL);
+
   if (logfile && *logfile)
     {
       int logfd;
@@ -87,8 +89,6 @@ preload_log_init (const char *logfile)
 
       /* g_debug ("opening log file done"); */
     }
-
-  g_log_set_default_handler (preload_log, NULL);
 }
 
 void
-- 
2.43.0


From c5c97fd4938c0de86725eff90d3fa068a39e136f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 31/39] fix: free the names of entries whose line cannot be
 written

The write macros return from the function on an error, which leaked the
name of the entry on every failing save.
---
 preload-src/src/handling/state_io.c | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/preload-src/src/handling/state_io.c b/preload-src/src/handling/state_io.c
index 011351b..667fa89 100644
--- a/preload-src/src/handling/state_io.c
+++ b/preload-src/src/handling/state_io.c
@@ -504,14 +504,13 @@ write_map (preload_map_t *map, gpointer G_GNUC_UNUSED data, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_MAP);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lu\t%lu\t%d\t%s",
 		   map->seq, (long long)map->update_time, (long)map->offset, (long)map->length, -1/*expansion*/, uri);
+  g_free (uri);
+  write_tag (TAG_MAP);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -528,14 +527,13 @@ write_badexe (gpointer key, gpointer value, gpointer user_data)
   if (!uri)
     return;
 
-  write_tag (TAG_BADEXE);
   g_string_printf (wc->line,
 		   "%d\t%d\t%s",
 		   update_time, -1/*expansion*/, uri);
+  g_free (uri);
+  write_tag (TAG_BADEXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
@@ -548,14 +546,13 @@ write_exe (gpointer G_GNUC_UNUSED key, preload_exe_t *exe, write_context_t *wc)
   if (!uri)
     return;
 
-  write_tag (TAG_EXE);
   g_string_printf (wc->line,
 		   "%" G_GINT64_FORMAT "\t%lld\t%lld\t%d\t%s",
 		   exe->seq, (long long)exe->update_time, (long long)exe->time, -1/*expansion*/, uri);
+  g_free (uri);
+  write_tag (TAG_EXE);
   write_string (wc->line);
   write_ln ();
-
-  g_free (uri);
 }
 
 
-- 
2.43.0


From 27567b13c2941e2c03c1dcffd56beca43195cad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 32/39] fix: build.sh could not find install.sh and announced
 an install target that does not exist

---
 scripts/build.sh | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/scripts/build.sh b/scripts/build.sh
index c2605a8..207a372 100644
--- a/scripts/build.sh
+++ b/scripts/build.sh
@@ -4,6 +4,8 @@
 
 set -e
 
+SCRIPT_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
+
 # Colors for output
 RED='\033[0;31m'
 GREEN='\033[0;32m'
@@ -109,25 +111,13 @@ install_preload() {
         echo ""
         print_info "Installing preload (requires root permissions)..."
         # Use install.sh script since Makefile doesn't have install target
-        sudo "$script_dir/scripts/install.sh" install
+        sudo "$SCRIPT_DIR/install.sh" install
         print_success "Preload installed"
-
-        echo ""
-        read -p "Enable and start preload service? (Y/n): " enable_response
-        case "$enable_response" in
-        [nN] | [nN][oO])
-            print_info "Service not enabled"
-            ;;
-        *)
-            sudo systemctl enable --now preload
-            print_success "Service enabled and started"
-            ;;
-        esac
         ;;
     *)
         echo ""
         print_info "Installation skipped"
-        echo "To install manually, run: sudo make install"
+        echo "To install manually, run: sudo $SCRIPT_DIR/install.sh"
         ;;
     esac
 }
-- 
2.43.0


From 835b8261f19ac7b573c1153ba3e2757a5afccfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 33/39] fix: bench.sh controlled a service that is never
 installed

---
 scripts/bench.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/bench.sh b/scripts/bench.sh
index 0248151..21224ea 100755
--- a/scripts/bench.sh
+++ b/scripts/bench.sh
@@ -12,7 +12,7 @@ BLUE='\033[0;34m'
 NC='\033[0m' # No Color
 
 # Configuration
-SERVICE_NAME="preload-ng"
+SERVICE_NAME="preload"
 DEFAULT_APP="gimp"
 WARMUP_RUNS=1
 BENCHMARK_RUNS=10
-- 
2.43.0


From d8d8a38f94a9eefffa7a36c8b3bf19602f220268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 34/39] fix: install.sh made and removed a state directory that
 the daemon never uses

---
 scripts/install.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/install.sh b/scripts/install.sh
index e684490..aa64946 100644
--- a/scripts/install.sh
+++ b/scripts/install.sh
@@ -15,7 +15,7 @@ NC='\033[0m' # No Color
 # Configuration
 INSTALL_BIN="/usr/local/sbin"
 INSTALL_CONF="/etc"
-VAR_LIB="/usr/local/var/lib/preload"
+VAR_LIB="/var/lib/preload"
 SYSTEMD_DIR="/etc/systemd/system"
 OPENRC_DIR="/etc/init.d"
 
@@ -124,9 +124,9 @@ create_directories() {
     chmod 755 "$VAR_LIB"
 
     # Create log directory if it doesn't exist
-    if [ ! -d "/usr/local/var/log" ]; then
-        mkdir -p "/usr/local/var/log"
-        chmod 755 "/usr/local/var/log"
+    if [ ! -d "/var/log" ]; then
+        mkdir -p "/var/log"
+        chmod 755 "/var/log"
     fi
 
     print_success "Directories created"
-- 
2.43.0


From 8a9006158205e884353a6ef4c7c009c86e1c0e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 35/39] fix: an interrupted installation left a truncated
 configuration that a rerun kept

---
 scripts/install.sh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/scripts/install.sh b/scripts/install.sh
index aa64946..ff99f7b 100644
--- a/scripts/install.sh
+++ b/scripts/install.sh
@@ -97,13 +97,19 @@ install_binary() {
     print_success "Binary installed"
 }
 
+# Put the configuration in place in one step, so that an interruption never leaves a part of it
+copy_config() {
+    cp "$BIN_DIR/preload.conf" "$INSTALL_CONF/preload.conf.new"
+    mv -f "$INSTALL_CONF/preload.conf.new" "$INSTALL_CONF/preload.conf"
+}
+
 install_config() {
     if [ -f "$INSTALL_CONF/preload.conf" ]; then
         print_warning "Configuration file already exists at $INSTALL_CONF/preload.conf"
         read -p "Overwrite? (y/N): " response
         case "$response" in
         [yY] | [yY][eE][sS])
-            cp "$BIN_DIR/preload.conf" "$INSTALL_CONF/preload.conf"
+            copy_config
             print_success "Configuration file overwritten"
             ;;
         *)
@@ -112,7 +118,7 @@ install_config() {
         esac
     else
         print_info "Installing configuration to $INSTALL_CONF/preload.conf..."
-        cp "$BIN_DIR/preload.conf" "$INSTALL_CONF/preload.conf"
+        copy_config
         print_success "Configuration file installed"
     fi
     chmod 644 "$INSTALL_CONF/preload.conf"
@@ -258,6 +264,7 @@ uninstall() {
         rm -f "$INSTALL_BIN/preload"
         print_success "Binary removed"
     fi
+    rm -f "$INSTALL_CONF/preload.conf.new" # left by an interrupted installation
 
     # Ask about config and data
     read -p "Remove configuration file ($INSTALL_CONF/preload.conf)? (y/N): " response
-- 
2.43.0


From 99283f1a6a584ac71f16d2325a4755d9ed908fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 36/39] fix: an interrupted or failed uninstallation left the
 service enabled or loaded for good

---
 scripts/install.sh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/install.sh b/scripts/install.sh
index ff99f7b..760ea64 100644
--- a/scripts/install.sh
+++ b/scripts/install.sh
@@ -242,17 +242,18 @@ uninstall() {
             print_info "Disabling service..."
             systemctl disable preload
         fi
-        if [ -f "$SYSTEMD_DIR/preload.service" ]; then
-            rm -f "$SYSTEMD_DIR/preload.service"
-            systemctl daemon-reload
-            print_success "Systemd service removed"
-        fi
+        rm -f "$SYSTEMD_DIR/preload.service"
+        systemctl daemon-reload
+        print_success "Systemd service removed"
     elif [ "$init_system" = "openrc" ]; then
         if rc-service preload status &>/dev/null; then
             print_info "Stopping service..."
             rc-service preload stop
         fi
-        rc-update del preload default 2>/dev/null || true
+        if rc-update show default 2>/dev/null | grep -Eq '^ *preload *\|'; then
+            print_info "Disabling service..."
+            rc-update del preload default
+        fi
         if [ -f "$OPENRC_DIR/preload" ]; then
             rm -f "$OPENRC_DIR/preload"
             print_success "OpenRC service removed"
-- 
2.43.0


From cede36f29fb830afcf2e025cd49afae3461bf08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 37/39] fix: applications with several processes at start-up
 were counted once per process in the status dump

---
 preload-src/src/handling/state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preload-src/src/handling/state.c b/preload-src/src/handling/state.c
index 3d537fc..156054b 100644
--- a/preload-src/src/handling/state.c
+++ b/preload-src/src/handling/state.c
@@ -59,7 +59,7 @@ set_running_process_callback (gpointer key, gpointer value, gpointer user_data)
   preload_exe_t *exe;
 
   exe = g_hash_table_lookup (state->exes, path);
-  if (exe) {
+  if (exe && exe->running_timestamp != time) { /* once, however many processes run it */
     exe->running_timestamp = time;
     state->running_exes = g_slist_prepend (state->running_exes, exe);
   }
-- 
2.43.0


From b5b8fb253bcc6c9c1c70461268278fd70e1cdd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 38/39] fix: do not let opened files take the place of closed
 standard descriptors

Started with a standard descriptor closed, the daemon gave its number to the
signal pipe or the main loop's wake-up descriptor; the next reload then put
the log file there, after which signals were lost and the loop spun.
---
 preload-src/src/utils/log.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/preload-src/src/utils/log.c b/preload-src/src/utils/log.c
index b1b0eb8..6d51049 100644
--- a/preload-src/src/utils/log.c
+++ b/preload-src/src/utils/log.c
@@ -62,8 +62,16 @@ preload_log (const char *log_domain, GLogLevelFlags log_level,
 void
 preload_log_init (const char *logfile)
 {
+  int fd;
+
   g_log_set_default_handler (preload_log, NULL);
 
+  /* started with a standard descriptor closed, do not let a file or pipe opened
+   * later take its place: messages would end up in it */
+  for (fd = STDIN_FILENO; fd <= STDERR_FILENO; fd++)
+    if (0 > fcntl (fd, F_GETFD) && fd != open ("/dev/null", O_RDWR))
+      g_error ("cannot open %s: %s", "/dev/null", strerror (errno));
+
   if (logfile && *logfile)
     {
       int logfd;
-- 
2.43.0


From ef875c53125b6e9267ba9495c11e35e179c0318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:29 +0000
Subject: [PATCH 39/39] fix: keep inode numbers beyond 32 bits when ordering
 requests

With SORT_INODE, and with SORT_BLOCK where the block is unknown, the inode
number was cut to an int. On file systems with 64-bit inode numbers (XFS,
btrfs) the requests were not issued in the configured order.
---
 preload-src/src/handling/map.h       | 2 +-
 preload-src/src/handling/readahead.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/preload-src/src/handling/map.h b/preload-src/src/handling/map.h
index bd973a4..7c5b9b8 100644
--- a/preload-src/src/handling/map.h
+++ b/preload-src/src/handling/map.h
@@ -28,7 +28,7 @@ typedef struct _preload_map_t
   int refcount; /* number of exes linking to this. */
   double lnprob; /* log-probability of NOT being needed in next period. */
   gint64 seq; /* unique map sequence number. */
-  int block; /* on-disk location of the start of the map. */
+  gint64 block; /* on-disk location of the start of the map. */
   int priv; /* for private local use of functions. */
 } preload_map_t;
 
diff --git a/preload-src/src/handling/readahead.c b/preload-src/src/handling/readahead.c
index 2012c3e..bd73fce 100644
--- a/preload-src/src/handling/readahead.c
+++ b/preload-src/src/handling/readahead.c
@@ -66,9 +66,9 @@ set_block(preload_map_t *file, gboolean use_inode)
 
   /* fall back to inode number */
   if (!block)
-    block = buf.st_ino;
-
-  file->block = block;
+    file->block = buf.st_ino;
+  else
+    file->block = block;
 
   close (fd);
 }
-- 
2.43.0

