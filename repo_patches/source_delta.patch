From 16c49e6533a1ec17ce02d3899b8f8b2738d9a3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 01/80] fix: array_list_grow keeps the list when memory cannot
 be extended

---
 modules/collections/src/list.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..27fb573 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -119,12 +119,14 @@ int32_t array_list_value_at(ArrayList* list, size_t pos, void* data)
 int32_t array_list_grow(ArrayList* list){
 
 	size_t newmax = highestPowerof2(list->max_size*2);
-	list->data = realloc(list->data, newmax * list->step);
+	// Keep the current data if the memory cannot be extended
+	void* grown = realloc(list->data, newmax * list->step);
 
-	if(list->data == NULL){
+	if(grown == NULL){
 		return -1;
 	}
 
+	list->data = grown;
 	list->max_size = newmax;
 
 	return 1;
-- 
2.43.0


From 0743d36693861f3b812c8023959d703d6acface6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 02/80] fix: array_list_insert_at rejects positions past the
 end and failed growth

---
 modules/collections/src/list.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 27fb573..2df9bfa 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -209,9 +209,14 @@ int32_t array_list_append(ArrayList* list, void* data)
 
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
-	if(list->size == list->max_size) {
-       array_list_grow(list);
-    }
+	// Inserting beyond the end would leave a gap in the list
+	if(pos > list->size) {
+		return 0;
+	}
+
+	if(list->size == list->max_size && array_list_grow(list) < 0) {
+		return 0;
+	}
 
     size_t t1 = pos * list->step;					// Beginning of the source
     size_t t2 = (pos + 1) * list->step;				// Beginning of the destination
-- 
2.43.0


From f2bd3ea46e3612869551bf24780ea010151127a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:34 +0000
Subject: [PATCH 03/80] fix: array_list_clear records the capacity left after
 resizing

---
 modules/collections/src/list.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 2df9bfa..80129ad 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -287,7 +287,13 @@ void array_list_clear(ArrayList* list, int32_t resize)
 {
 	list->size = 0;
 	if(resize) {
-		list->data = realloc(list->data, list->step);
+		void* shrunk = realloc(list->data, list->step);
+
+		// The list can now only hold one element
+		if(shrunk != NULL) {
+			list->data = shrunk;
+			list->max_size = 1;
+		}
 	}
 }
 
-- 
2.43.0


From 095024a83b88bf57cf891bdabe49925d0b8a7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 04/80] fix: hashtable_remove keeps the links of the remaining
 chain intact

---
 modules/collections/src/hashtable.c | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..0ae0379 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,24 +297,14 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
-        if(htbl->table[bucket] != NULL)
-        {
-            htbl->table[bucket]->prev = NULL;
-        }
     }
 
+    // Get the next entry to point to the previous entry
     if(entry->next != NULL)
     {
         entry->next->prev = entry->prev;
-        entry->next = NULL;
-    } else {
-        if(entry->prev != NULL)
-        {
-            entry->prev->next = NULL;
-        }
     }
 
     // destroy the node and get the data
-- 
2.43.0


From 40b0cc2fc55c67bfd09c9cc47af58e2e4ef4d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 05/80] fix: hashtable_remove copies out as many bytes as the
 value has

---
 modules/collections/src/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 0ae0379..b62a65a 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -308,7 +308,7 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From cb80c0f7881d38d07ab5259103b46fc80e09b1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 06/80] fix: set_insert reports a failed allocation apart from
 a duplicate

---
 modules/collections/include/collections/set.h | 3 ++-
 modules/collections/src/set.c                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/collections/include/collections/set.h b/modules/collections/include/collections/set.h
index 69744b3..61d3636 100644
--- a/modules/collections/include/collections/set.h
+++ b/modules/collections/include/collections/set.h
@@ -67,7 +67,8 @@ void set_clear(set_t* _set);
  * 
  * @param _set 
  * @param data 
- * @return int32_t 
+ * @return int32_t 1 if inserted, 0 if the data was already in the set and 
+ * -1 if there was no memory for it
  */
 int32_t set_insert(set_t* _set, void* data);
 
diff --git a/modules/collections/src/set.c b/modules/collections/src/set.c
index 1fda464..e806402 100644
--- a/modules/collections/src/set.c
+++ b/modules/collections/src/set.c
@@ -79,7 +79,8 @@ int32_t set_insert(set_t* _set, void* data)
         } while(low < high);
     }
 
-    return array_list_insert_at(_set, data, low);
+    // Tell running out of memory apart from finding a duplicate
+    return array_list_insert_at(_set, data, low) ? 1 : -1;
 }
 
 int32_t set_remove(set_t* _set, void* data)
-- 
2.43.0


From cab326530b66ae031ad87510217a26ce398471c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 07/80] fix: hashtable_init_size fails when the key set cannot
 be allocated

---
 modules/collections/src/hashtable.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index b62a65a..812ebe0 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -145,6 +145,13 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     htbl->collisions = 0;
     htbl->key_compare = compare;
     htbl->keys = set_init(get_htype_size(htbl->ktype), compare);
+    if(htbl->keys == NULL)
+    {
+        logger_write(FATAL, "Hash table key set memory allocation failed\n");
+        free(htbl->table);
+        free(htbl);
+        return NULL;
+    }
 
     /**
      * @brief Determine the function to use for key hashing
-- 
2.43.0


From 3a1e7284b3256c43193b781ed9409a7364c90b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 08/80] fix: hashtable_insert reports failed allocations and
 leaves the table unchanged

---
 modules/collections/src/hashtable.c | 31 +++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 812ebe0..13f59b0 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -195,6 +195,18 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
     if(entry == NULL) /// The key is not in the table
     {
         entry = hashtable_set_entry(htbl, entry, key, value);
+        if(entry == NULL)
+        {
+            return 0;
+        }
+
+        if(set_insert(htbl->keys, key) != 1)
+        {
+            free(entry->key);
+            free(entry->data);
+            free(entry);
+            return 0;
+        }
 
         // The bucket has at least one entry
         if(htbl->table[bucket] != NULL)
@@ -207,13 +219,17 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
         } 
 
         htbl->table[bucket] = entry;
-        htbl->size++;        
-        set_insert(htbl->keys, key);
+        htbl->size++;
     } else { /// The key is in the table 
         // In case the value memory is externally managed, we have to get the data
         // in the entry before replacing it.
         size_t dsize = get_htype_size(htbl->dtype);
         void* tmp = malloc(dsize);
+        if(tmp == NULL)
+        {
+            return 0;
+        }
+
         memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable
         memcpy(entry->data, value, dsize);        // Replace the data
         memcpy(value, tmp, dsize);          // Copy the original data into value
@@ -412,12 +428,23 @@ hashtable_entry* hashtable_set_entry(hashtable* htbl, hashtable_entry *entry, vo
     if(entry == NULL)
     {
         entry = (hashtable_entry *)malloc(sizeof(hashtable_entry));
+        if(entry == NULL)
+        {
+            return NULL;
+        }
 
         // Assign proper memory sizes.
         // TODO: see if data and key memories can be allocated in a
         // single contigous memory with the malloc above.
         entry->data = malloc(dsize);
         entry->key = malloc(ksize);
+        if(entry->data == NULL || entry->key == NULL)
+        {
+            free(entry->data);
+            free(entry->key);
+            free(entry);
+            return NULL;
+        }
 
         // Make sure next and prev are NULL
         entry->next = NULL;
-- 
2.43.0


From e83db9de000c712b74609526eca319a3bb71b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 09/80] fix: hashtable_clear needs no memory and releases every
 colliding key

---
 modules/collections/src/hashtable.c | 30 ++++++++++-------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 13f59b0..8b78ccb 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -349,46 +349,36 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
  */
 int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*value_destroy)(void *value))
 {
-    void* key = malloc(get_htype_size(htbl->ktype));
-    size_t dsize = get_htype_size(htbl->dtype);
-    void* data = malloc(dsize);
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
-    for(size_t i = 0; i < set_size(htbl->keys); i++)
+    for(size_t bucket = 0; bucket < htbl->buckets; bucket++)
     {
-        set_value_at(htbl->keys, i, key);
-        size_t bucket = htbl->key_hash(key, htbl->buckets);
         entry = htbl->table[bucket];
         htbl->table[bucket] = NULL; /// unhook the entries from the bucket
 
-        /// The colliding entries will be removed as well 
-        /// so check to make sure we do not attempt to remove again.
-        if(entry == NULL)
-        {
-            continue;
-        }
-
         while(entry)
         {
             tmp = entry;
             entry = entry->next;
-            hashtable_entry_destroy(tmp, data, dsize);
 
-            if(key_destroy != NULL && *(void **)key != NULL)
+            /// Each entry releases its own key and value 
+            if(key_destroy != NULL && *(void **)tmp->key != NULL)
             {
-                key_destroy(*(void **)key);
+                key_destroy(*(void **)tmp->key);
             }
 
-            if(value_destroy != NULL && *(void **)data != NULL)
+            if(value_destroy != NULL && *(void **)tmp->data != NULL)
             {
-                value_destroy(*(void **)data);
+                value_destroy(*(void **)tmp->data);
             }
+
+            free(tmp->key);
+            free(tmp->data);
+            free(tmp);
         }
     }
 
-    free(key);
-    free(data);
     set_clear(htbl->keys);
     htbl->size = 0;
    
-- 
2.43.0


From 110cd6b90e53a4dc8e2369304003d8d3146417d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 10/80] fix: linkedlist_node_unhook keeps the previous node
 linked

---
 modules/collections/src/linkedlist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..ab7c9fd 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,7 +257,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
 
@@ -271,7 +270,6 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->next != NULL)
     {
         nd->next->prev = nd->prev;
-        nd->next = NULL;
     } else { // This is the las node
         list->tail = nd->prev;
         if(list->tail != NULL)
@@ -279,6 +277,9 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
             list->tail->next = NULL;
         }
     }
+
+    nd->prev = NULL;
+    nd->next = NULL;
     list->size--;
 }
 
-- 
2.43.0


From 58c8f3be475f6e243b7c05efb759425722ad8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 11/80] fix: linkedlist_lookup releases the node it removes

---
 modules/collections/src/linkedlist.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ab7c9fd..b6b01a2 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -296,7 +296,15 @@ void* linkedlist_lookup(linkedlist *list, void* data, int32_t remove, int32_t (*
         linkedlist_node_unhook(list, tmp);
     }
 
-    return tmp ? tmp->data : tmp;
+    void* found = tmp ? tmp->data : NULL;
+
+    // The data of a removed node now belongs to the caller
+    if(remove == 1)
+    {
+        free(tmp);
+    }
+
+    return found;
 }
 
 /**
-- 
2.43.0


From 64099c4590bad92810c614f8e1c7018507bd37dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 12/80] fix: linked list additions fail cleanly without memory
 for the data

---
 modules/collections/src/linkedlist.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index b6b01a2..e998cc1 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -80,7 +80,10 @@ linkedlist *linkedlist_init(size_t step)
 void node_set_data(node* nd, void* data, size_t step)
 {    
     nd->data = malloc(step);
-    memcpy(nd->data, data, step);
+    if(nd->data != NULL)
+    {
+        memcpy(nd->data, data, step);
+    }
 }
 
 /**
@@ -103,7 +106,12 @@ node* node_creator(void* data, enum HTYPES type)
     nd->next = NULL;
 
     node_set_data(nd, data, type);
-    
+    if(nd->data == NULL)
+    {
+        free(nd);
+        return NULL;
+    }
+
     return nd;
 }
 
-- 
2.43.0


From 46883f0ac2b88168be80f085589921ddde2760e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:11 +0000
Subject: [PATCH 13/80] fix: logger_write needs no memory and no buffer shared
 between threads

---
 modules/utils/src/logger.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 7943ea1..2a77807 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -46,17 +46,15 @@
 #include <time.h>
 
 static FILE* log_file;
-static char* getDateString() {
+static void getDateString(char* date, size_t size) {
     // Initialize and get current time
     time_t t = time( NULL );
-
-    // Allocate space for date string
-    char* date = (char*)malloc( 100 );
+    struct tm now;
 
     // Format the time correctly
-    strftime(date, 100, "[%F %T]", localtime(&t));
-
-    return date;
+    if(localtime_r(&t, &now) == NULL || strftime(date, size, "[%F %T]", &now) == 0) {
+        date[0] = '\0';
+    }
 }
 
 void logger_init()
@@ -85,7 +83,6 @@ void logger_write(enum LOGTYPE type, const char* str) {
     assert(log_file != NULL);
 #endif
 
-    char* date = getDateString();
     const char* tp;
 
     if(type == FATAL) {
@@ -102,13 +99,12 @@ void logger_write(enum LOGTYPE type, const char* str) {
     
     /** If the LOGTYPE is none, we do not add the timestamp information to the log */
     if(type != NONE) {
-        size_t sz = strlen(date) + strlen(tp) + strlen(str) + 10;
-        char buffer[sz];
-        sprintf(buffer, "%s %s: %s", date, tp, str);
+        char date[100];
+        getDateString(date, sizeof(date));
     #ifdef DEBUG
-        fprintf(log_file, "%s", buffer);
+        fprintf(log_file, "%s %s: %s", date, tp, str);
     #else
-        printf("%s", buffer);
+        printf("%s %s: %s", date, tp, str);
     #endif
     } else {
     #ifdef DEBUG
@@ -117,7 +113,6 @@ void logger_write(enum LOGTYPE type, const char* str) {
         printf("%s", str);
     #endif
     }
-    free(date);
 }
 
 void logger_close() {
-- 
2.43.0


From 27f9691be3c4f5d306ea9a09afc2be5e0eb3f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:11 +0000
Subject: [PATCH 14/80] fix: debug logging works without an open log file

---
 modules/utils/src/logger.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 2a77807..003757e 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -59,7 +59,6 @@ static void getDateString(char* date, size_t size) {
 
 void logger_init()
 {
-    log_file = NULL; //! Make sure the log file pointer is null
     /*!
      * \brief Only open the file if the library was compiled for debugging
      * 
@@ -78,9 +77,9 @@ void logger_init()
 
 void logger_write(enum LOGTYPE type, const char* str) {
 
-    /** Must check the file is open if we logging to it */
+    /** Fall back to the standard output when the log file is not open */
 #ifdef DEBUG
-    assert(log_file != NULL);
+    FILE* out = log_file != NULL ? log_file : stdout;
 #endif
 
     const char* tp;
@@ -102,13 +101,13 @@ void logger_write(enum LOGTYPE type, const char* str) {
         char date[100];
         getDateString(date, sizeof(date));
     #ifdef DEBUG
-        fprintf(log_file, "%s %s: %s", date, tp, str);
+        fprintf(out, "%s %s: %s", date, tp, str);
     #else
         printf("%s %s: %s", date, tp, str);
     #endif
     } else {
     #ifdef DEBUG
-        fprintf(log_file, "%s", str);
+        fprintf(out, "%s", str);
     #else
         printf("%s", str);
     #endif
@@ -117,7 +116,9 @@ void logger_write(enum LOGTYPE type, const char* str) {
 
 void logger_close() {
 #ifdef DEBUG
-    assert(log_file != NULL);
-    fclose(log_file);
+    if(log_file != NULL) {
+        fclose(log_file);
+        log_file = NULL;
+    }
 #endif
 }
-- 
2.43.0


From 088ee41f6b47ea9a6fd4ec92ccd12647ed7598ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:12 +0000
Subject: [PATCH 15/80] fix: workers setting cluster offsets no longer share
 the cluster pointer

---
 src/hdbscan.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..30a8da2 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -667,14 +667,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
-		cluster* newCluster = NULL;
-		
 		#ifdef _OPENMP
 		#pragma omp parallel for
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-			newCluster = ((cluster**)newClusters->data)[i];
+			cluster* newCluster = ((cluster**)newClusters->data)[i];
 			newCluster->offset = lineCount;
 		}
 		
-- 
2.43.0


From 66e37d85e4a9e20fe8d1fcdab85dd2ad64ca32ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:13 +0000
Subject: [PATCH 16/80] fix: a distance equal to a known neighbour is inserted
 next to it

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..0a96f3f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From a445294b92e2fe03600743bc26587bd83379869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:32 +0000
Subject: [PATCH 17/80] fix: hdbscan_init initialises the tree, the point count
 and the distances

---
 src/hdbscan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 30a8da2..0bdad76 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -127,6 +127,9 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		sc->clusters = NULL;
 		sc->coreDistances = NULL;
 		sc->outlierScores = NULL;
+		sc->mst = NULL;
+		sc->numPoints = 0;
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 	}
 
 	return sc;
-- 
2.43.0


From 2da3518de85dbd6bdfd2e23d7f0fba18726ed594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:34 +0000
Subject: [PATCH 18/80] fix: hdbscan_run releases the results of an earlier run

---
 src/hdbscan.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 0bdad76..ceb8c50 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -316,6 +316,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	hdbscan_clean(sc); // release the results of an earlier run
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-- 
2.43.0


From be49289568244c0e3dca94d480f393084c76fb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:36 +0000
Subject: [PATCH 19/80] fix: datasets of fewer than five points can be
 clustered

---
 src/hdbscan.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index ceb8c50..45d7526 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -242,6 +242,10 @@ int hdbscan_do_run(hdbscan* sc){
 	{
 		csize = (index_t)(csize * 4);
 	}
+	if(csize < 1)
+	{
+		csize = 1;
+	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
 	int err = hdbscan_construct_mst(sc);
@@ -327,6 +331,10 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	{
 		csize = (index_t)(csize * 4);
 	}
+	if(csize < 1)
+	{
+		csize = 1;
+	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
 	
-- 
2.43.0


From c10d137e4a2d95ab5d13238bacff25dd266c2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:37 +0000
Subject: [PATCH 20/80] fix: cluster maps of fewer than three points can be
 created

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 45d7526..7a013a8 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1233,7 +1233,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init(size/3 + 1, sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From 5fc81dcc0b90c59716cb76c280fab0f19c142bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:39 +0000
Subject: [PATCH 21/80] fix: element-wise datasets with several columns use
 every element as a point

---
 src/hdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 7a013a8..3262a8a 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -324,7 +324,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	// Each element is a point of its own when the dataset is not row-wise
+	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
-- 
2.43.0


From 43d718c7608e008694536657e200055e634f7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:41 +0000
Subject: [PATCH 22/80] fix: the variance starts from zero instead of the
 memory's old contents

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 3262a8a..703f634 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1452,6 +1452,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
 	stats->intraDistanceValues.mean = stats->intraDistanceValues.mean/stats->count;
 
 	/// Calculate the variance
+	stats->coreDistanceValues.variance = 0;
+	stats->intraDistanceValues.variance = 0;
 	distance_t sum_sc = 0;
 	distance_t sum_sd = 0;
 	distance_t sum_dc = 0;
-- 
2.43.0


From 28807ede75edb398423d1e8f77c7411b1e75992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:43 +0000
Subject: [PATCH 23/80] fix: skewness and kurtosis are computed once instead of
 by every worker

---
 src/hdbscan.c | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 703f634..399b4a2 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1350,19 +1350,12 @@ void hdbscan_destroy_distance_map(hashtable* table){
  */
 void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	//int32_t N = stats->count;
 	stats->coreDistanceValues.skewness = (distance_t)(sum_sc / (stats->count * pow(stats->coreDistanceValues.standardDev, 3)));
 	stats->intraDistanceValues.skewness = (distance_t)(sum_sd / (stats->count * pow(stats->intraDistanceValues.standardDev, 3)));
 
 	stats->coreDistanceValues.kurtosis = (distance_t)((sum_dc / (stats->count * pow(stats->coreDistanceValues.standardDev, 4))) - 3);
 	stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *pow(stats->intraDistanceValues.standardDev, 4))) - 3);
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
@@ -1379,10 +1372,6 @@ void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
 
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	index_t N = stats->count;
 	
 	// Calculate the skewness
@@ -1411,9 +1400,6 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
 		stats->coreDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 		stats->intraDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 	}
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
-- 
2.43.0


From b8c04252009a81b3c5ef0821fd95e91740b52a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:19 +0000
Subject: [PATCH 24/80] fix: sorting given clusters by similarity uses the
 confidences of those clusters

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 399b4a2..e0099ee 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1687,7 +1687,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
-- 
2.43.0


From 4b1cd7cead954b1717f081440ac6866f97f6c1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:20 +0000
Subject: [PATCH 25/80] fix: sorting clusters accepts empty lists and maps

---
 src/hdbscan.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e0099ee..45091c8 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1629,7 +1629,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(distanceMap), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(distanceMap) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1639,10 +1639,10 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			clusters->compare = short_compare;
 		}
 
-		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
+		distances = array_list_init(hashtable_size(distanceMap) + 1, sizeof(distance_t), NULL);
 
 	} else{
-		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		distances = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
@@ -1718,7 +1718,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 	assert(clusterTable != NULL && clusters != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1728,9 +1728,9 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 			clusters->compare = short_compare;
 		}
 
-		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
+		lengths = array_list_init(hashtable_size(clusterTable) + 1, sizeof(distance_t), NULL);
 	} else{
-		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
+		lengths = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
-- 
2.43.0


From d504c7615376fd1029a451d2baf3260f65076527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:22 +0000
Subject: [PATCH 26/80] fix: sorting all clusters by length reads the labels of
 the map

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 45091c8..fd4ca65 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1746,7 +1746,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From 05dabf04121794b1fb032e31a5754bd27e74c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 27/80] fix: hdbscan_sort_by_length creates the list when none
 is given

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index fd4ca65..8d1d44d 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1715,7 +1715,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
  */
 ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
-	assert(clusterTable != NULL && clusters != NULL);
+	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
-- 
2.43.0


From c0d65204e3f4061d036b03c6e0e5b72eedac58aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:25 +0000
Subject: [PATCH 28/80] fix: sorting clusters ends when a confidence is not a
 number

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 8d1d44d..b962167 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1560,7 +1560,7 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 	int down = upper; /* index will go down */
 
 	while(up < down){
-		while((up < down) && (d_data[up] <= x)) {
+		while((up < down) && !(d_data[up] > x)) { // NaN is not greater, so it is passed
 			up++;
 		}
 
-- 
2.43.0


From 243e642054a353231e62d00dc410cf73eca4b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:27 +0000
Subject: [PATCH 29/80] fix: C++ sorting accepts empty maps

---
 src/hdbscan.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e4b3b75..e38dbc5 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -317,6 +317,9 @@ void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
  */
 void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t left, index_t right)
 {
+	if(clusters.empty())
+		return;
+
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
-- 
2.43.0


From 62825ba4519c65e31f3500e5eaab02014a33ff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:28 +0000
Subject: [PATCH 30/80] fix: hdbscan::clean keeps the object alive

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e38dbc5..3a07765 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -85,7 +85,7 @@ void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* poin
 }
 
 void hdbscan::clean(){
-	hdbscan_destroy(this);
+	hdbscan_clean(this);
 }
 
 map_t createClusterMap(label_t* labels, index_t begin, index_t end){
-- 
2.43.0


From a8f5482519f6371acc2950367d5461bab8c043a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:29 +0000
Subject: [PATCH 31/80] fix: the lowest death level of a root without children
 is its own

---
 src/cluster.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 441b432..bb60fee 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -148,12 +148,13 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  */
 void cluster_propagate(cluster* cl){
 
+	//A cluster without descendants dies at its own death level, the root included:
+	if (cl->propagatedLowestChildDeathLevel == D_MAX){
+		cl->propagatedLowestChildDeathLevel = cl->deathLevel;
+	}
+
 	if (cl->parent != NULL) {
 		//Propagate lowest death level of any descendants:
-        if (cl->propagatedLowestChildDeathLevel == D_MAX){
-        	cl->propagatedLowestChildDeathLevel = cl->deathLevel;
-		}
-
 		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){
 			cl->parent->propagatedLowestChildDeathLevel = cl->propagatedLowestChildDeathLevel;
 		}
-- 
2.43.0


From 01444b28c8e26263d74496c338f42caaa1b399ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 32/80] fix: points without a finite link are attached to the
 tree

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index b962167..ed08fd3 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -897,7 +897,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 	for(index_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
-		neighbours[i] = 0;
+		neighbours[i] = currentPoint; // joins the first tree point unless a shorter link is found
 		others[i] = 0;
 	}
 
-- 
2.43.0


From 3aafae204adff1f527fd0f65cb5074dac8c3b40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 33/80] fix: hierarchy file names are built from the given name
 alone, whatever its length

---
 src/hdbscan.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index ed08fd3..dda66dd 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1854,16 +1854,16 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
+		char visFilename[strlen(filename) + sizeof("_visualization.vis")];
+		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
 		fprintf(visFile, "1\n");
 		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
 		fclose(visFile);
 
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
+		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy.csv")];
+		strcpy(hierarchyFilename, filename);
 		strcat(hierarchyFilename, "_hierarchy.csv");
 		hierarchyFile = fopen(hierarchyFilename, "w");
 	}
-- 
2.43.0


From bc854e0a6eb02c82a4b2365526ab5a66f496e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:58 +0000
Subject: [PATCH 34/80] fix: exporting a hierarchy survives a visualization
 file that cannot be opened

---
 src/hdbscan.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index dda66dd..c33e17c 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1858,9 +1858,11 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 		strcpy(visFilename, filename);
 		strcat(visFilename, "_visualization.vis");
 		visFile = fopen(visFilename, "w");
-		fprintf(visFile, "1\n");
-		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
-		fclose(visFile);
+		if(visFile != NULL) {
+			fprintf(visFile, "1\n");
+			fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
+			fclose(visFile);
+		}
 
 		char hierarchyFilename[strlen(filename) + sizeof("_hierarchy.csv")];
 		strcpy(hierarchyFilename, filename);
-- 
2.43.0


From 695f47ca0201ef538bd97d04b61741df19ad2508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:59 +0000
Subject: [PATCH 35/80] fix: printing a cluster map reads its points as indices

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c33e17c..7e67b57 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1809,7 +1809,7 @@ void hdbscan_print_cluster_map(hashtable* table){
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
-			dpointer = ((label_t *)clusterList->data)[j];
+			dpointer = ((index_t *)clusterList->data)[j];
 			sprintf(s, "%d ", dpointer);
 			logger_write(NONE, s);
 		}
-- 
2.43.0


From 51bfdaae15bb83e38e81da45a3e3fdcba8c11026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 36/80] fix: print buffers hold the largest distances

---
 src/distance.c         | 2 +-
 src/hdbscan.c          | 6 +++---
 src/undirected_graph.c | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 0a96f3f..572a622 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -277,7 +277,7 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[400]; // "%f" takes over 300 characters for the largest distances
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 7e67b57..6c9d03b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1912,7 +1912,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[1000]; // "%f" takes over 300 characters for the largest values
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
@@ -1931,7 +1931,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[2500];
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
@@ -1958,7 +1958,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
  * \param stats 
  */
 void hdbscan_print_stats(clustering_stats* stats){
-	char s[1200];
+	char s[6000];
 	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
 	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
 	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..8a4d3df 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -268,7 +268,7 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
+	char s[400]; // "%f" takes over 300 characters for the largest weights
 	sprintf(s,
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-- 
2.43.0


From c64d90258e45ed7752b1c89f293ca1f4ab7f5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 37/80] fix: the debug print of all distances holds the largest
 distances

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6c9d03b..d48fdf8 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -749,7 +749,7 @@ hierarchy_entry* hdbscan_create_hierarchy_entry(){
 void print_distances(hdbscan* sc){
 	for (index_t i = 0; i < sc->numPoints; i++) {
 	#ifdef DEBUG
-		char s[50];
+		char s[400];
 		logger_write(INFO, "[");
 	#else
 		printf("[");
-- 
2.43.0


From bfda69bf2fecd249bd30c90ed220f71ae623d2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:12 +0000
Subject: [PATCH 38/80] fix: differences of large integers do not overflow

---
 src/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 572a622..e6b1e14 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -170,11 +170,11 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 				} else if(dis->datatype == H_INT) {
 
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long)dt[i * dis->cols + k] - (long)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_LONG) {
 
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From 5f5aab8c85fcdd8f0f004d5a770a8eee7a93436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:13 +0000
Subject: [PATCH 39/80] fix: hdbscan_rerun reports an error when there is no
 dataset

---
 src/hdbscan.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d48fdf8..6d69332 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -282,6 +282,16 @@ int hdbscan_do_run(hdbscan* sc){
  * @return int 
  */
 int hdbscan_rerun(hdbscan* sc, index_t minPts){
+	if(sc->distanceFunction.distances == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_rerun - There is no dataset to cluster again.\n");
+	#else
+		printf("FATAL: hdbscan_rerun - There is no dataset to cluster again.\n");
+	#endif
+
+		return HDBSCAN_ERROR;
+	}
+
 	// clean the hdbscan
 	hdbscan_minimal_clean(sc);
 	
-- 
2.43.0


From adb528fefc138d8e8f1157ef311027fd133a3d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:15 +0000
Subject: [PATCH 40/80] fix: computing outlier scores reports success

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6d69332..225d848 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1212,7 +1212,7 @@ int hdbscsan_calculate_outlier_scores(hdbscan* sc, distance_t* pointNoiseLevels,
 	//Sort the outlier scores:
 	qsort(sc->outlierScores, numPoints, sizeof(outlier_score), outlier_score_compare);
 
-	return 1;
+	return HDBSCAN_SUCCESS;
 }
 
 /**
-- 
2.43.0


From 14e0f9c32e099319127e49b6c605b33d5d8cde20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:17 +0000
Subject: [PATCH 41/80] fix: hdbscan_run reports distances and clusters that
 cannot be allocated

---
 src/distance.c |  6 ++++++
 src/hdbscan.c  | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/distance.c b/src/distance.c
index e6b1e14..ade2e35 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -142,6 +142,12 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
     size_t sub = (size_t)(rows * rows -rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
+	if(dis->distances == NULL || dis->coreDistances == NULL) {
+		logger_write(FATAL, "distance_compute - Failed to allocate memory for the distances\n");
+		distance_clean(dis);
+		return;
+	}
+
 	distance_t sum, diff;
 
 #ifdef _OPENMP
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 225d848..fa602e5 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -336,6 +336,9 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
 	// Each element is a point of its own when the dataset is not row-wise
 	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
+	if(sc->distanceFunction.distances == NULL){
+		return HDBSCAN_ERROR;
+	}
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
@@ -348,6 +351,16 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
+	if(sc->clusters == NULL || sc->clusterStabilities == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_run - Could not allocate memory for the clusters.\n");
+	#else
+		printf("FATAL: hdbscan_run - Could not allocate memory for the clusters.\n");
+	#endif
+		hdbscan_clean(sc);
+
+		return HDBSCAN_ERROR;
+	}
 	
 	return hdbscan_do_run(sc);
 }
-- 
2.43.0


From 5971f4a5d0b5cec2085d5fb16e7bc644e358ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:18 +0000
Subject: [PATCH 42/80] fix: graph_init fails cleanly without memory for the
 adjacency lists

---
 src/undirected_graph.c | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 8a4d3df..c1f2e84 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -43,7 +43,27 @@
 #include <omp.h>
 #endif
 
+/**
+ * @brief Releases what graph_init has allocated so far. The vertex and weight lists
+ * still belong to the caller.
+ * 
+ * @param g 
+ * @param allocated whether the graph itself was allocated by graph_init
+ * @return UndirectedGraph* always NULL
+ */
+static UndirectedGraph* graph_abandon(UndirectedGraph* g, boolean allocated) {
+	g->verticesA = NULL;
+	g->verticesB = NULL;
+	g->edgeWeights = NULL;
+	graph_clean(g);
+	if(allocated)
+		free(g);
+
+	return NULL;
+}
+
 UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList* verticesA, ArrayList* verticesB, ArrayList* edgeWeights) {
+	boolean allocated = g == NULL;
 	if(g == NULL)
 		g = (UndirectedGraph*)malloc(sizeof(UndirectedGraph));
 
@@ -69,7 +89,7 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 	#else
 		printf("FATAL: graph_init - Could not allocate memory for edges.");
 	#endif
-		return NULL;
+		return graph_abandon(g, allocated);
 	}
 
 #ifdef _OPENMP
@@ -77,6 +97,9 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 #endif
 	for(index_t i = 0; i < numVertices; i++){
 		g->edges[i] = array_list_init(16, sizeof(index_t), NULL);
+		if(g->edges[i] == NULL)
+			continue;
+
 		if(sizeof(index_t) == sizeof(int)) {
 			g->edges[i]->compare = int_compare;
 		} else if(sizeof(index_t) == sizeof(long)) {
@@ -85,15 +108,24 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 			g->edges[i]->compare = short_compare;
 		}
 	}
+
+	for(index_t i = 0; i < numVertices; i++){
+		if(g->edges[i] == NULL)
+			return graph_abandon(g, allocated);
+	}
+
 	index_t vertexOne, vertexTwo;
 	for (index_t i = 0; i < g->verticesA->size; i++) {
 		
 		array_list_value_at(g->verticesA, i, &vertexOne);
 		array_list_value_at(g->verticesB, i, &vertexTwo);
 
-		array_list_append(g->edges[vertexOne], &vertexTwo);
+		if(array_list_append(g->edges[vertexOne], &vertexTwo) != 1)
+			return graph_abandon(g, allocated);
+
 		if (vertexOne != vertexTwo) {
-			array_list_append(g->edges[vertexTwo], &vertexOne);
+			if(array_list_append(g->edges[vertexTwo], &vertexOne) != 1)
+				return graph_abandon(g, allocated);
 		}
 	}
 
-- 
2.43.0


From 47d446e04ea1b995e2f391644e604b49e00f5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:30 +0000
Subject: [PATCH 43/80] fix: building the tree without memory releases the
 lists it has

---
 src/hdbscan.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index fa602e5..8b11bb6 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -870,13 +870,18 @@ int hdbscan_construct_mst(hdbscan* sc){
 	//Create an array for vertices in the tree that each point attached to:
 	ArrayList* otherVertexIndices = array_list_init(ssize, sizeof(index_t), NULL);
 
+	ArrayList* nearestMRDDistances = array_list_init(ssize, sizeof(distance_t), NULL);
+
 	if(nearestMRDNeighbors == NULL){
 #ifdef DEBUG
 	logger_write(FATAL, "hdbscan_construct_mst - Could not construct nearestMRDNeighbors\n");
 #else
 	printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDNeighbors\n");
 #endif
-		
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		array_list_delete(nearestMRDDistances);
+
 		return HDBSCAN_ERROR;
 	}
 
@@ -886,7 +891,23 @@ int hdbscan_construct_mst(hdbscan* sc){
 	#else
 		printf("FATAL: hdbscan_construct_mst - Could not construct otherVertexIndices\n");
 	#endif
-		
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		array_list_delete(nearestMRDDistances);
+
+		return HDBSCAN_ERROR;
+	}
+
+	if(nearestMRDDistances == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
+	#else
+		printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
+	#endif
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		array_list_delete(nearestMRDDistances);
+
 		return HDBSCAN_ERROR;
 	}
 
@@ -901,7 +922,6 @@ int hdbscan_construct_mst(hdbscan* sc){
 		otherVertexIndices->compare = short_compare;
 	}
 
-	ArrayList* nearestMRDDistances = array_list_init(ssize, sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double))
 	{
 		nearestMRDDistances->compare = double_compare;
@@ -928,16 +948,6 @@ int hdbscan_construct_mst(hdbscan* sc){
 	nearestMRDNeighbors->size = ssize;
 	otherVertexIndices->size = ssize;
 
-	if(nearestMRDDistances == NULL){
-	#ifdef DEBUG
-		logger_write(FATAL, "hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
-	#else
-		printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
-	#endif
-		
-		return HDBSCAN_ERROR;
-	}
-
 	//Continue attaching points to the MST until all points are attached:
 	for (index_t numAttachedPoints = 1; numAttachedPoints < size; numAttachedPoints++) {
 		int32_t nearestMRDPoint = -1;
@@ -1006,6 +1016,9 @@ int hdbscan_construct_mst(hdbscan* sc){
 	#else
 		printf("FATAL: Could not initialise mst.\n");
 	#endif
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		array_list_delete(nearestMRDDistances);
 
 		return HDBSCAN_ERROR;
 	}
-- 
2.43.0


From dd601ba558a13c70c033b920ed7c511524bb4a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:46 +0000
Subject: [PATCH 44/80] fix: cluster_init fails cleanly without memory for its
 lists

---
 src/cluster.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index bb60fee..941b99a 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -53,6 +53,7 @@
  */
 cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t birthLevel, index_t numPoints){
 	
+	boolean allocated = cl == NULL;
 	if(cl == NULL){
 		cl = (cluster*)malloc(sizeof(cluster));
 	}
@@ -75,6 +76,17 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 			cl->parent->hasChildren = TRUE;
 		cl->hasChildren = FALSE;
 		cl->virtualChildCluster = set_init(sizeof(index_t), NULL);
+		cl->propagatedDescendants = ptr_array_list_init(1, cluster_compare);
+		if(cl->virtualChildCluster == NULL || cl->propagatedDescendants == NULL) {
+			logger_write(ERROR, "cluster_init - Could not allocate memory for the points of the cluster.");
+			set_delete(cl->virtualChildCluster);
+			array_list_delete(cl->propagatedDescendants);
+			if(allocated)
+				free(cl);
+
+			return NULL;
+		}
+
 		if(sizeof(index_t) == sizeof(int)) {
 			cl->virtualChildCluster->compare = int_compare;
 		} else if(sizeof(index_t) == sizeof(long)) {
@@ -82,8 +94,6 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 		} else {
 			cl->virtualChildCluster->compare = short_compare;
 		}
-
-		cl->propagatedDescendants = ptr_array_list_init(1, cluster_compare);
 	}
 
 	return cl;
-- 
2.43.0


From 9037c02d4a1c8cd8206aa3eff4d551326f45d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 45/80] fix: clusters report points and descendants they have
 no memory for

---
 include/hdbscan/cluster.h |  2 +-
 src/cluster.c             | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 4e53711..1404bd2 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -314,7 +314,7 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level);
  * 
  * @param cl 
  */
-void cluster_propagate(cluster* cl);
+int cluster_propagate(cluster* cl);
 
 /**
  * @brief 
diff --git a/src/cluster.c b/src/cluster.c
index 941b99a..30ffd67 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -155,8 +155,9 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  * parent.
  * 
  * @param cl 
+ * @return int CLUSTER_ERROR when memory runs out, else CLUSTER_SUCCESS
  */
-void cluster_propagate(cluster* cl){
+int cluster_propagate(cluster* cl){
 
 	//A cluster without descendants dies at its own death level, the root included:
 	if (cl->propagatedLowestChildDeathLevel == D_MAX){
@@ -172,7 +173,8 @@ void cluster_propagate(cluster* cl){
 		if (cl->hasChildren == FALSE || cl->numConstraintsSatisfied > cl->propagatedNumConstraintsSatisfied) {
 			cl->parent->propagatedNumConstraintsSatisfied = (index_t) (cl->parent->propagatedNumConstraintsSatisfied + cl->numConstraintsSatisfied);
 			cl->parent->propagatedStability += cl->stability;
-			array_list_append(cl->parent->propagatedDescendants, &cl);
+			if(array_list_append(cl->parent->propagatedDescendants, &cl) != 1)
+				return CLUSTER_ERROR;
 		}
 		else if (cl->numConstraintsSatisfied < cl->propagatedNumConstraintsSatisfied) {
 
@@ -183,7 +185,8 @@ void cluster_propagate(cluster* cl){
 			{
 				cluster* c = NULL;
 				array_list_value_at(cl->propagatedDescendants, i, &c);
-				array_list_append(cl->parent->propagatedDescendants, &c);
+				if(array_list_append(cl->parent->propagatedDescendants, &c) != 1)
+					return CLUSTER_ERROR;
 			}
 		}
 		else if (cl->numConstraintsSatisfied == cl->propagatedNumConstraintsSatisfied) {
@@ -191,7 +194,8 @@ void cluster_propagate(cluster* cl){
 			if (cl->stability >= cl->propagatedStability) {
 				cl->parent->propagatedNumConstraintsSatisfied = (index_t)(cl->parent->propagatedNumConstraintsSatisfied + cl->numConstraintsSatisfied);
 				cl->parent->propagatedStability += cl->stability;
-				array_list_append(cl->parent->propagatedDescendants, &cl);
+				if(array_list_append(cl->parent->propagatedDescendants, &cl) != 1)
+					return CLUSTER_ERROR;
 			}
 
 			else {
@@ -202,11 +206,14 @@ void cluster_propagate(cluster* cl){
 				{
 					cluster *c = NULL;
 					array_list_value_at(cl->propagatedDescendants, i, &c);
-					array_list_append(cl->parent->propagatedDescendants, &c);
+					if(array_list_append(cl->parent->propagatedDescendants, &c) != 1)
+						return CLUSTER_ERROR;
 				}
 			}
 		}
 	}
+
+	return CLUSTER_SUCCESS;
 }
 
 
@@ -215,10 +222,11 @@ int cluster_add_points_to_virtual_child_cluster(cluster* cl, set_t* points){
 	for(index_t i = 0; i < points->size; i++){
 		
 		set_value_at(points, i, &d);
-		set_insert(cl->virtualChildCluster, &d);
+		if(set_insert(cl->virtualChildCluster, &d) < 0)
+			return CLUSTER_ERROR;
 	}
 	
-	return 1;
+	return CLUSTER_SUCCESS;
 }
 
 boolean cluster_virtual_child_contains_point(cluster* cl, index_t point){
-- 
2.43.0


From 1f17a713980fc8a568048bb986f663c72dae03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 46/80] fix: selecting clusters reports memory that runs out

---
 include/hdbscan/hdbscan.h |  2 +-
 src/hdbscan.c             | 52 ++++++++++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/include/hdbscan/hdbscan.h b/include/hdbscan/hdbscan.h
index e3b8e7c..67e405d 100644
--- a/include/hdbscan/hdbscan.h
+++ b/include/hdbscan/hdbscan.h
@@ -351,7 +351,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc);
  * @param sc 
  * @param infiniteStability true if there are any clusters with infinite stability, false otherwise
  */
-void hdbscan_find_prominent_clusters(hdbscan* sc, int32_t infiniteStability);
+int hdbscan_find_prominent_clusters(hdbscan* sc, int32_t infiniteStability);
 
 /**
  * @brief Produces the outlier score for each point in the data set, and returns a sorted list of outlier
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 8b11bb6..fe24b0f 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -267,11 +267,11 @@ int hdbscan_do_run(hdbscan* sc){
 
 	hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters);
 	int infiniteStability = hdbscan_propagate_tree(sc);
-	hdbscan_find_prominent_clusters(sc, infiniteStability);
-
-	hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);
+	if(infiniteStability < 0 || hdbscan_find_prominent_clusters(sc, infiniteStability) == HDBSCAN_ERROR){
+		return HDBSCAN_ERROR;
+	}
 
-	return HDBSCAN_SUCCESS;
+	return hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 /**
@@ -1035,7 +1035,10 @@ int hdbscan_construct_mst(hdbscan* sc){
 boolean hdbscan_propagate_tree(hdbscan* sc){
 
 	set_t* clustersToExamine = set_init(sizeof(label_t), NULL);
-	
+	if(clustersToExamine == NULL){
+		return -1;
+	}
+
 	if(sizeof(label_t) == sizeof(int)) {
 		clustersToExamine->compare = int_compare;
 	} else if(sizeof(label_t) == sizeof(long)) {
@@ -1046,6 +1049,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 
 	boolean addedToExaminationList[sc->clusters->size];
 	boolean infiniteStability = FALSE;
+	boolean failed = FALSE; // set when memory runs out
 	size_t i;
 
 	#ifdef _OPENMP
@@ -1066,7 +1070,8 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 				#pragma omp critical
 			#endif
 			{
-			set_insert(clustersToExamine, &cl->label);
+			if(set_insert(clustersToExamine, &cl->label) < 0)
+				failed = TRUE;
 			addedToExaminationList[cl->label] = TRUE;
 			}
 		}
@@ -1074,11 +1079,13 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 
 	label_t x;
 	cluster* currentCluster;
-	while(!set_empty(clustersToExamine)){
+	while(!failed && !set_empty(clustersToExamine)){
 		
 		set_remove_at(clustersToExamine, clustersToExamine->size-1, &x);
 		currentCluster = ((cluster **)sc->clusters->data)[x];
-		cluster_propagate(currentCluster);
+		if(cluster_propagate(currentCluster) == CLUSTER_ERROR){
+			failed = TRUE;
+		}
 
 		if(currentCluster->stability == D_MAX){
 			infiniteStability = TRUE;
@@ -1087,7 +1094,8 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 			cluster *parent = currentCluster->parent;
 
 			if(addedToExaminationList[parent->label] == FALSE){
-				set_insert(clustersToExamine, &parent->label);
+				if(set_insert(clustersToExamine, &parent->label) < 0)
+					failed = TRUE;
 				addedToExaminationList[parent->label] = TRUE;
 			}
 		}
@@ -1112,7 +1120,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 	currentCluster = NULL;
 	set_delete(clustersToExamine);
 
-	return infiniteStability;
+	return failed ? -1 : infiniteStability;
 }
 
 /**
@@ -1121,12 +1129,17 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
  * @param sc 
  * @param infiniteStability 
  */
-void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
+int hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 	
 	cluster* cl = ((cluster **) sc->clusters->data)[1];
 	ArrayList *solution = cl->propagatedDescendants;
 	
 	hashtable *significant = hashtable_init(array_list_size(solution), H_LONG, H_PTR, long_compare);
+	if(significant == NULL){
+		return HDBSCAN_ERROR;
+	}
+
+	boolean failed = FALSE; // set when memory runs out
 	int32_t ret;
 	cluster* c = NULL;
 
@@ -1145,8 +1158,7 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 			ArrayList* clusterList = NULL;
 			ret = hashtable_lookup(significant, &c->offset, &clusterList);
 
-			if(clusterList == NULL){
-				clusterList = array_list_init(16, sizeof(label_t), NULL);
+			if(clusterList == NULL && (clusterList = array_list_init(16, sizeof(label_t), NULL)) != NULL){
 				if(sizeof(label_t) == sizeof(int)) {
 					clusterList->compare = int_compare;
 				} else if(sizeof(label_t) == sizeof(long)) {
@@ -1155,15 +1167,23 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 					clusterList->compare = short_compare;
 				}
 				long tmp = c->offset;
-				hashtable_insert(significant, &tmp, &clusterList);
+				if(hashtable_insert(significant, &tmp, &clusterList) == 0){
+					clusterList = array_list_delete(clusterList);
+				}
 			}
 			
-			array_list_append(clusterList, &(c->label));
+			if(clusterList == NULL || array_list_append(clusterList, &(c->label)) != 1){
+				failed = TRUE;
+			}
 		}
 		}
 	}
 	
 	sc->clusterLabels = (label_t *)calloc(sc->numPoints, sizeof(label_t));
+	if(failed || sc->clusterLabels == NULL){
+		hashtable_destroy(significant, NULL, (void (*)(void *))array_list_delete);
+		return HDBSCAN_ERROR;
+	}
 
 	#ifdef _OPENMP
 		#pragma omp parallel for
@@ -1188,6 +1208,8 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 	}
 
 	hashtable_destroy(significant, NULL, (void (*)(void *))array_list_delete);
+
+	return HDBSCAN_SUCCESS;
 }
 
 /**
-- 
2.43.0


From cda6f5693e6353675917f64475f036ade7b57397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 47/80] fix: computing the hierarchy reports memory that runs
 out

---
 src/hdbscan.c | 166 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 127 insertions(+), 39 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index fe24b0f..e8ee36e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -248,6 +248,10 @@ int hdbscan_do_run(hdbscan* sc){
 	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
+	if(sc->hierarchy == NULL){
+		return HDBSCAN_ERROR;
+	}
+
 	int err = hdbscan_construct_mst(sc);
 	
 	if(err == HDBSCAN_ERROR){
@@ -265,7 +269,10 @@ int hdbscan_do_run(hdbscan* sc){
 	distance_t pointNoiseLevels[sc->numPoints];
 	label_t pointLastClusters[sc->numPoints];
 
-	hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters);
+	if(hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters) == HDBSCAN_ERROR){
+		return HDBSCAN_ERROR;
+	}
+
 	int infiniteStability = hdbscan_propagate_tree(sc);
 	if(infiniteStability < 0 || hdbscan_find_prominent_clusters(sc, infiniteStability) == HDBSCAN_ERROR){
 		return HDBSCAN_ERROR;
@@ -380,6 +387,24 @@ void hdbscan_calculate_num_constraints_satisfied(hdbscan* sc, set_t* newClusterL
 	}
 }
 
+/**
+ * @brief Adds a cluster to the new clusters and hands it over to the list of all clusters.
+ * 
+ * @param sc 
+ * @param newClusters 
+ * @param newCluster 
+ * @return boolean FALSE when memory runs out, in which case the cluster is destroyed
+ */
+static boolean hdbscan_keep_new_cluster(hdbscan* sc, ArrayList* newClusters, cluster* newCluster){
+
+	if(newCluster != NULL && array_list_append(newClusters, &newCluster) == 1 && array_list_append(sc->clusters, &newCluster) == 1){
+		return TRUE;
+	}
+
+	cluster_destroy(newCluster);
+	return FALSE;
+}
+
 /**
  * @brief 
  * 
@@ -391,6 +416,7 @@ void hdbscan_calculate_num_constraints_satisfied(hdbscan* sc, set_t* newClusterL
  */
 int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy, distance_t* pointNoiseLevels, label_t* pointLastClusters){
 
+	boolean failed = FALSE; // set when memory runs out
 	int64_t lineCount = 0; // Indicates the number of lines written into hierarchyFile.
 
 	//The current edge being removed from the MST:
@@ -414,13 +440,26 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 	//A list of clusters in the cluster tree, with the 0th cluster (noise) null:
 	cluster* c = NULL;
-	array_list_append(sc->clusters, &c);
+	if(array_list_append(sc->clusters, &c) != 1){
+		return HDBSCAN_ERROR;
+	}
 
 	c = cluster_init(NULL, 1, NULL, NAN, numVertices);
-	array_list_append(sc->clusters, &c);
+	if(c == NULL || array_list_append(sc->clusters, &c) != 1){
+		cluster_destroy(c);
+		return HDBSCAN_ERROR;
+	}
 
 	//Sets for the clusters and vertices that are affected by the edge(s) being removed:
 	set_t* affectedClusterLabels = set_init(sizeof(label_t), NULL);
+	set_t* affectedVertices = set_init(sizeof(index_t), NULL);
+	ArrayList* newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);
+	if(affectedClusterLabels == NULL || affectedVertices == NULL || newClusters == NULL){
+		set_delete(affectedClusterLabels);
+		set_delete(affectedVertices);
+		array_list_delete(newClusters);
+		return HDBSCAN_ERROR;
+	}
 
 	if(sizeof(label_t) == sizeof(int)) {
 		affectedClusterLabels->compare = int_compare;
@@ -429,8 +468,6 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	} else {
 		affectedClusterLabels->compare = short_compare;
 	}
-	
-	set_t* affectedVertices = set_init(sizeof(index_t), NULL);
 
 	if(sizeof(index_t) == sizeof(int)) {
 		affectedVertices->compare = int_compare;
@@ -440,11 +477,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		affectedVertices->compare = short_compare;
 	}
 	
-	ArrayList* newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);
 	index_t i;
 	distance_t currentEdgeWeight, tmp_w;
 
-	while (currentEdgeIndex >= 0) {
+	while (!failed && currentEdgeIndex >= 0) {
 		
 		currentEdgeWeight = ((distance_t *)sc->mst->edgeWeights->data)[currentEdgeIndex];
 		
@@ -470,9 +506,11 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				continue;
 			}
 
-			set_insert(affectedVertices, &firstVertex);
-			set_insert(affectedVertices, &secondVertex);
-			set_insert(affectedClusterLabels, currentClusterLabels + firstVertex);
+			if(set_insert(affectedVertices, &firstVertex) < 0 || set_insert(affectedVertices, &secondVertex) < 0
+				|| set_insert(affectedClusterLabels, currentClusterLabels + firstVertex) < 0){
+				failed = TRUE;
+				break;
+			}
 
 			currentEdgeIndex--;
 			if(currentEdgeIndex >= 0)
@@ -481,7 +519,7 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 			}
 		}
 
-		if(affectedClusterLabels->size < 1){
+		if(failed || affectedClusterLabels->size < 1){
 			continue;
 		}
 		
@@ -494,9 +532,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		set_t* firstChildCluster = set_init(sizeof(index_t), NULL);
 		set_t* unexploredFirstChildClusterPoints = set_init(sizeof(index_t), NULL);
 		set_t* constructingSubCluster = set_init(sizeof(index_t), NULL);
-		ArrayList* unexploredSubClusterPoints = array_list_init(examinedVertices->max_size, sizeof(index_t), NULL);
+		ArrayList* unexploredSubClusterPoints = array_list_init(2, sizeof(index_t), NULL);
 
-		if(sizeof(index_t) == sizeof(int)) {
+		if(examinedVertices == NULL || firstChildCluster == NULL || unexploredFirstChildClusterPoints == NULL
+			|| constructingSubCluster == NULL || unexploredSubClusterPoints == NULL){
+			failed = TRUE;
+		} else if(sizeof(index_t) == sizeof(int)) {
 			examinedVertices->compare = int_compare;
 			firstChildCluster->compare = int_compare;
 			unexploredFirstChildClusterPoints->compare = int_compare;
@@ -517,7 +558,7 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		//Check each cluster affected for a possible split:
-		while(affectedClusterLabels->size > 0){
+		while(!failed && affectedClusterLabels->size > 0){
 
 			set_remove_at(affectedClusterLabels, affectedClusterLabels->size-1, &examinedClusterLabel);
 
@@ -529,7 +570,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				
 				n = ((index_t *)affectedVertices->data)[it];
 				if (currentClusterLabels[n] == examinedClusterLabel) {
-					set_insert(examinedVertices, &n);
+					if(set_insert(examinedVertices, &n) < 0){
+						failed = TRUE;
+						break;
+					}
 					set_remove(affectedVertices, &n);
 				} else{
 					it++;
@@ -545,18 +589,19 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 			 * split, otherwise, only spurious components are fully explored, in order to label
 			 * them noise.
 			 */
-			while (examinedVertices->size > 0) {
+			while (!failed && examinedVertices->size > 0) {
 
 				boolean anyEdges = FALSE;
 				boolean incrementedChildCount = FALSE;
 				index_t rootVertex;
 
 				set_remove_at(examinedVertices, examinedVertices->size-1, &rootVertex);
-				set_insert(constructingSubCluster, &rootVertex);
-				array_list_append(unexploredSubClusterPoints, &rootVertex);
+				if(set_insert(constructingSubCluster, &rootVertex) < 0 || array_list_append(unexploredSubClusterPoints, &rootVertex) != 1){
+					failed = TRUE;
+				}
 				
 				//Explore this potential child cluster as long as there are unexplored points:
-				while (unexploredSubClusterPoints->size > 0) {
+				while (!failed && unexploredSubClusterPoints->size > 0) {
 					index_t vertexToExplore;
 					array_list_pop(unexploredSubClusterPoints, &vertexToExplore);
 
@@ -567,16 +612,20 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 						
 						neighbor = ((index_t*)v->data)[i];
 						anyEdges = TRUE;
-						boolean p = set_insert(constructingSubCluster, &neighbor);
+						int32_t p = set_insert(constructingSubCluster, &neighbor);
+
+						if(p < 0 || (p && array_list_append(unexploredSubClusterPoints, &neighbor) != 1)){
+							failed = TRUE;
+							break;
+						}
 
 						if(p){
-							array_list_append(unexploredSubClusterPoints, &neighbor);
 							set_remove(examinedVertices, &neighbor);
 						}
 					}
 
 					//Check if this potential child cluster is a valid cluster:
-					if(incrementedChildCount == FALSE && constructingSubCluster->size >= sc->minPoints && anyEdges == TRUE){
+					if(!failed && incrementedChildCount == FALSE && constructingSubCluster->size >= sc->minPoints && anyEdges == TRUE){
 						incrementedChildCount = TRUE;
 						numChildClusters++;
 
@@ -585,18 +634,24 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 							index_t d;
 							for(i = 0; i < constructingSubCluster->size; i++){
 								d = ((index_t*)constructingSubCluster->data)[i];
-								set_insert(firstChildCluster, &d);
+								if(set_insert(firstChildCluster, &d) < 0)
+									failed = TRUE;
 							}
 
 							for(i = 0; i < unexploredSubClusterPoints->size; i++){
 								d = ((index_t*)unexploredSubClusterPoints->data)[i];
-								set_insert(unexploredFirstChildClusterPoints, &d);
+								if(set_insert(unexploredFirstChildClusterPoints, &d) < 0)
+									failed = TRUE;
 							}
 							break;
 						}
 					}
 				}
 				
+				if(failed){
+					break;
+				}
+
 				cluster* examinedCluster = NULL;
 				//If there could be a split, and this child cluster is valid:
 				if(numChildClusters >= 2 && constructingSubCluster->size >= sc->minPoints && anyEdges == TRUE){
@@ -614,9 +669,9 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 						examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 						cluster* newCluster = hdbscan_create_new_cluster(sc, constructingSubCluster, currentClusterLabels, 
 																			examinedCluster, nextClusterLabel, currentEdgeWeight);
-						array_list_append(newClusters, &newCluster);
 						nextClusterLabel++;
-						array_list_append(sc->clusters, &newCluster);
+						if(!hdbscan_keep_new_cluster(sc, newClusters, newCluster))
+							failed = TRUE;
 					}
 				}
 
@@ -625,7 +680,11 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 					examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 					
+					size_t held = set_size(examinedCluster->virtualChildCluster);
 					cluster* newCluster = hdbscan_create_new_cluster(sc, constructingSubCluster, currentClusterLabels, examinedCluster, 0, currentEdgeWeight);
+					if(set_size(examinedCluster->virtualChildCluster) != held + constructingSubCluster->size)
+						failed = TRUE;
+
 					index_t point;
 					#ifdef _OPENMP
 					#pragma omp parallel for private(point)
@@ -652,27 +711,32 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 			index_t neighbor;
 			index_t vertexToExplore;	
 
-			if (numChildClusters >= 2 && currentClusterLabels[dd] == examinedClusterLabel) {
-				while(unexploredFirstChildClusterPoints->size > 0){
+			if (!failed && numChildClusters >= 2 && currentClusterLabels[dd] == examinedClusterLabel) {
+				while(!failed && unexploredFirstChildClusterPoints->size > 0){
 					
 					set_remove_at(unexploredFirstChildClusterPoints, unexploredFirstChildClusterPoints->size-1, &vertexToExplore);
 					ArrayList* v = (sc->mst->edges)[vertexToExplore];
 
 					for (i = 0; i < v->size; i++) {
 						neighbor = ((index_t*)v->data)[i];
-						if (set_insert(firstChildCluster, &neighbor)) {
-							set_insert(unexploredFirstChildClusterPoints, &neighbor);
+						int32_t p = set_insert(firstChildCluster, &neighbor);
+						if (p < 0 || (p && set_insert(unexploredFirstChildClusterPoints, &neighbor) < 0)) {
+							failed = TRUE;
 						}
 					}
 				}
 
+				if(failed){
+					break;
+				}
+
 				cluster* examinedCluster = NULL;
 				examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 				
 				cluster* newCluster = hdbscan_create_new_cluster(sc, firstChildCluster, currentClusterLabels, examinedCluster, nextClusterLabel, currentEdgeWeight);
-				array_list_append(newClusters, &newCluster);
 				nextClusterLabel++;
-				array_list_append(sc->clusters, &newCluster);
+				if(!hdbscan_keep_new_cluster(sc, newClusters, newCluster))
+					failed = TRUE;
 			}
 			
 			firstChildCluster->size = 0;
@@ -685,11 +749,19 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		set_delete(firstChildCluster);
 		set_delete(unexploredFirstChildClusterPoints);
 
+		if(failed){
+			break;
+		}
+
 		if (compactHierarchy == FALSE || nextLevelSignificant == TRUE || array_list_size(newClusters) > 0) {
 			lineCount++;
 			hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
+			if(entry == NULL || (entry->labels = (label_t*)malloc(numVertices * sizeof(label_t))) == NULL){
+				hdbscan_destroy_hierarchical_entry(entry);
+				failed = TRUE;
+				break;
+			}
 			entry->edgeWeight = currentEdgeWeight;
-			entry->labels = (label_t*)malloc(numVertices * sizeof(label_t));
 
 			#ifdef _OPENMP
 			#pragma omp parallel for
@@ -699,7 +771,11 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				entry->labels[i] = previousClusterLabels[i];
 			}
 
-			hashtable_insert(sc->hierarchy, &lineCount, &entry);
+			if(hashtable_insert(sc->hierarchy, &lineCount, &entry) == 0){
+				hdbscan_destroy_hierarchical_entry(entry);
+				failed = TRUE;
+				break;
+			}
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
@@ -728,10 +804,18 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		array_list_clear(newClusters, 0);
 	}
 	array_list_delete(newClusters);
+	set_delete(affectedClusterLabels);
+	set_delete(affectedVertices);
+	if(failed){
+		return HDBSCAN_ERROR;
+	}
 
 	hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
+	if(entry == NULL || (entry->labels = (label_t*) malloc(numVertices * sizeof(label_t))) == NULL){
+		hdbscan_destroy_hierarchical_entry(entry);
+		return HDBSCAN_ERROR;
+	}
 	entry->edgeWeight = 0.0;
-	entry->labels = (label_t*) malloc(numVertices * sizeof(label_t));
 	
 	#ifdef _OPENMP
 	#pragma omp parallel for
@@ -743,12 +827,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 	// Write out the final level of the hierarchy (all points noise):
 	int64_t l = 0;
-	hashtable_insert(sc->hierarchy, &l, &entry);
+	if(hashtable_insert(sc->hierarchy, &l, &entry) == 0){
+		hdbscan_destroy_hierarchical_entry(entry);
+		return HDBSCAN_ERROR;
+	}
 	lineCount++;
 
-	set_delete(affectedClusterLabels);
-	set_delete(affectedVertices);
-
 	return HDBSCAN_SUCCESS;
 }
 
@@ -759,6 +843,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
  */
 hierarchy_entry* hdbscan_create_hierarchy_entry(){
 	hierarchy_entry* entry = (hierarchy_entry *) malloc(sizeof(hierarchy_entry));
+	if(entry == NULL){
+		return NULL;
+	}
+
 	entry->labels = NULL;
 	entry->edgeWeight = 0.0;
 	return entry;
-- 
2.43.0


From 4be32b688c5007e2e93420fd08ae91a2db32c73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 48/80] fix: the Java dataset buffer is released as an array

---
 modules/java/src/Hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b00d8a1..fd069ae 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -82,7 +82,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-	delete dset;
+	delete[] dset;
 	
 	return getLabelsArray(env, scan.clusterLabels, rows);
 }
-- 
2.43.0


From 890baa8f99c26bf1510d1a430a85693ac8cbbf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 49/80] fix: rows obtained from the Java virtual machine are
 released

---
 modules/java/src/Hdbscan.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index fd069ae..f49d41d 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -79,6 +79,8 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 			dset[dIdx] = row[j];
 			dIdx++;
 		}
+		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
+		env->DeleteLocalRef(dim);
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-- 
2.43.0


From 5db3eb45d0106a30c25c7a4f4b611cc93fb6e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:46 +0000
Subject: [PATCH 50/80] fix: each Java object has its own clustering object

---
 modules/java/src/Hdbscan.cpp                  | 52 ++++++++++++++++---
 .../java/src/bw/co/roguesystems/Hdbscan.java  |  6 ++-
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index f49d41d..397f28f 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -40,12 +40,33 @@
 #include "bw_co_roguesystems_Hdbscan.h"
 #include "hdbscan/hdbscan.hpp"
 #include <iostream>
+#include <cstdint>
 
 using namespace clustering;
-hdbscan scan;
+
+/**
+ * The clustering object of a Java object is kept in the "handle" field.
+ */
+static jfieldID handleField(JNIEnv *env, jobject obj){
+	return env->GetFieldID(env->GetObjectClass(obj), "handle", "J");
+}
+
+static hdbscan* getScan(JNIEnv *env, jobject obj){
+	jfieldID field = handleField(env, obj);
+	hdbscan *scan = field == NULL ? NULL : (hdbscan*)(intptr_t)env->GetLongField(obj, field);
+
+	if(scan == NULL && field != NULL){
+		env->ThrowNew(env->FindClass("java/lang/IllegalStateException"), "The clustering object has been cleaned.");
+	}
+	return scan;
+}
 
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env, jobject obj, jint minPoints){
-	hdbscan_init(&scan, minPoints);
+	jfieldID field = handleField(env, obj);
+
+	if(field != NULL){
+		env->SetLongField(obj, field, (jlong)(intptr_t)new hdbscan((index_t)minPoints));
+	}
 }
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
@@ -65,6 +86,11 @@ jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env, jobject obj, jobjectArray dataset){
 	
+	hdbscan *scan = getScan(env, obj);
+	if(scan == NULL){
+		return NULL;
+	}
+
 	int rows = env->GetArrayLength(dataset);
 	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
 	int cols = env -> GetArrayLength(dim);
@@ -82,19 +108,29 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
 		env->DeleteLocalRef(dim);
 	}
-	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
+	scan->run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
 	delete[] dset;
 	
-	return getLabelsArray(env, scan.clusterLabels, rows);
+	return getLabelsArray(env, scan->clusterLabels, rows);
 }
 
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *env, jobject obj, jint newMinPts){
-	scan.reRun(newMinPts);	
-	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
+	hdbscan *scan = getScan(env, obj);
+	if(scan == NULL){
+		return NULL;
+	}
+
+	scan->reRun(newMinPts);	
+	return getLabelsArray(env, scan->clusterLabels, scan->numPoints);
 }
 
-JNIEXPORT void JNICALL Java_hdbscan_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	//scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *env, jobject obj){
+	jfieldID field = handleField(env, obj);
+
+	if(field != NULL){
+		delete (hdbscan*)(intptr_t)env->GetLongField(obj, field);
+		env->SetLongField(obj, field, 0);
+	}
 }
diff --git a/modules/java/src/bw/co/roguesystems/Hdbscan.java b/modules/java/src/bw/co/roguesystems/Hdbscan.java
index dd284e1..6bb1a58 100644
--- a/modules/java/src/bw/co/roguesystems/Hdbscan.java
+++ b/modules/java/src/bw/co/roguesystems/Hdbscan.java
@@ -35,6 +35,9 @@ public class Hdbscan{
 	};
 
 	private int[] labels;
+
+	/** The address of the native clustering object, 0 when there is none */
+	private long handle;
 	
 	 /**
 	  * Initialise hdbscan*
@@ -58,7 +61,8 @@ public class Hdbscan{
 	private native int[] reRunImpl(int minPoints);
 	
 	/**
-	 * Call this method to clean up C allocated memory
+	 * Call this method to clean up C allocated memory. The object cannot be used
+	 * for clustering afterwards.
 	 * 
 	 */ 
 	public native void cleanHdbscan();
-- 
2.43.0


From f05f05dd08519eadb0057c0ac60228b132a23591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:06 +0000
Subject: [PATCH 51/80] fix: Java runs report failures as exceptions

---
 modules/java/src/Hdbscan.cpp | 87 +++++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 10 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index 397f28f..a5a6af0 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -41,9 +41,25 @@
 #include "hdbscan/hdbscan.hpp"
 #include <iostream>
 #include <cstdint>
+#include <new>
 
 using namespace clustering;
 
+/**
+ * Throws a Java exception, unless one is already pending.
+ */
+static void throwNew(JNIEnv *env, const char *name, const char *message){
+	jclass type = env->ExceptionCheck() ? NULL : env->FindClass(name);
+
+	if(type != NULL){
+		env->ThrowNew(type, message);
+	}
+}
+
+static void throwOutOfMemory(JNIEnv *env){
+	throwNew(env, "java/lang/OutOfMemoryError", "Not enough native memory.");
+}
+
 /**
  * The clustering object of a Java object is kept in the "handle" field.
  */
@@ -56,7 +72,7 @@ static hdbscan* getScan(JNIEnv *env, jobject obj){
 	hdbscan *scan = field == NULL ? NULL : (hdbscan*)(intptr_t)env->GetLongField(obj, field);
 
 	if(scan == NULL && field != NULL){
-		env->ThrowNew(env->FindClass("java/lang/IllegalStateException"), "The clustering object has been cleaned.");
+		throwNew(env, "java/lang/IllegalStateException", "The clustering object has been cleaned.");
 	}
 	return scan;
 }
@@ -65,13 +81,27 @@ JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env,
 	jfieldID field = handleField(env, obj);
 
 	if(field != NULL){
-		env->SetLongField(obj, field, (jlong)(intptr_t)new hdbscan((index_t)minPoints));
+		hdbscan *scan = new (std::nothrow) hdbscan((index_t)minPoints);
+
+		if(scan == NULL){
+			throwOutOfMemory(env);
+		} else {
+			env->SetLongField(obj, field, (jlong)(intptr_t)scan);
+		}
 	}
 }
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 	jintArray labels = env->NewIntArray(rows);	
-	int32_t tmp[rows];
+	if(labels == NULL){
+		return NULL; // the exception is pending
+	}
+
+	int32_t *tmp = new (std::nothrow) int32_t[rows];
+	if(tmp == NULL){
+		throwOutOfMemory(env);
+		return NULL;
+	}
 
 	#ifdef _OPENMP
 	#pragma omp parallel for
@@ -81,6 +111,7 @@ jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 	}
 
 	env->SetIntArrayRegion(labels, 0, rows, tmp);
+	delete[] tmp;
 	return labels;
 }
 
@@ -92,14 +123,35 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	}
 
 	int rows = env->GetArrayLength(dataset);
-	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
-	int cols = env -> GetArrayLength(dim);
-	double *dset = new double[rows * cols];
-	long dIdx = 0;
+	int cols = 0;
+	double *dset = NULL;
+	size_t dIdx = 0;
 
 	for(int i = 0; i < rows; i++){
-		dim =  (jdoubleArray)env->GetObjectArrayElement(dataset, i);
+		jdoubleArray dim = (jdoubleArray)env->GetObjectArrayElement(dataset, i);
+		int length = dim == NULL ? 0 : env->GetArrayLength(dim);
+
+		if(i == 0){
+			cols = length;
+			dset = new (std::nothrow) double[(size_t)rows * cols];
+		}
+
+		if(dset == NULL){
+			throwOutOfMemory(env);
+			return NULL;
+		}
+
+		if(length == 0 || length != cols){
+			throwNew(env, "java/lang/IllegalArgumentException", "The rows of the dataset must have the same number of values.");
+			delete[] dset;
+			return NULL;
+		}
+
 		jdouble *row = env->GetDoubleArrayElements(dim, NULL);
+		if(row == NULL){
+			delete[] dset;
+			return NULL; // the exception is pending
+		}
 		
 		for(int j = 0; j < cols; j++){
 			dset[dIdx] = row[j];
@@ -108,9 +160,20 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
 		env->DeleteLocalRef(dim);
 	}
-	scan->run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
+
+	if(rows == 0){
+		throwNew(env, "java/lang/IllegalArgumentException", "The dataset has no rows.");
+		return NULL;
+	}
+
+	int result = hdbscan_run(scan, dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
 	delete[] dset;
+
+	if(result != HDBSCAN_SUCCESS){
+		throwNew(env, "java/lang/RuntimeException", "The dataset could not be clustered.");
+		return NULL;
+	}
 	
 	return getLabelsArray(env, scan->clusterLabels, rows);
 }
@@ -122,7 +185,11 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 		return NULL;
 	}
 
-	scan->reRun(newMinPts);	
+	if(hdbscan_rerun(scan, (index_t)newMinPts) != HDBSCAN_SUCCESS){
+		throwNew(env, "java/lang/RuntimeException", "The dataset could not be clustered again.");
+		return NULL;
+	}
+
 	return getLabelsArray(env, scan->clusterLabels, scan->numPoints);
 }
 
-- 
2.43.0


From b22cae088ce407dbb87792b6f6e79e5f8381041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 52/80] fix: each Python object has a clustering object of its
 own

---
 modules/python/src/PyHdbscan.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index a2a08e1..199837a 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -54,8 +54,6 @@
             PyModuleDef_HEAD_INIT, name, doc, -1, methods, }; \
         ob = PyModule_Create(&PyHdbscanNodule);
 
-hdbscan* scan = NULL;
-
 /**
  * @brief PyHdbscan object
  * 
@@ -66,6 +64,7 @@ typedef struct {
     PyObject* clusterMap;
     PyObject* hierarchy;
 	index_t minPoints, cols, rows;
+	hdbscan* scan;              /// The clustering object this Python object works on
 } PyHdbscan;
 
 /**
@@ -74,7 +73,10 @@ typedef struct {
  * @param self 
  */
 static void PyHdbscan_dealloc(PyHdbscan* self){
-	hdbscan_clean(scan);
+	if(self->scan != NULL) {
+		hdbscan_destroy(self->scan);
+		self->scan = NULL;
+	}
     Py_XDECREF(self->labels);
     Py_XDECREF(self->clusterMap);
     Py_XDECREF(self->hierarchy);
@@ -102,6 +104,7 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 		self->minPoints = 0;
 		self->rows = 0;
 		self->cols = 0;
+		self->scan = NULL;
     }
 
     return (PyObject *)self;
@@ -136,7 +139,10 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 		return -1;
 	} 
 	
-    scan = hdbscan_init(NULL, self->minPoints);
+    if(self->scan != NULL) {
+		hdbscan_destroy(self->scan);
+	}
+    self->scan = hdbscan_init(NULL, self->minPoints);
 	
     return 0;
 }
@@ -227,10 +233,10 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     }
 	
     void *dset = PyArray_DATA(d_arr); /// The contigous array
-	int err = hdbscan_run(scan, dset, self->rows, self->cols, TRUE, datatype);
+	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
 
     Py_INCREF(self->labels);
     Py_XDECREF(dataset); // Release the dataset memory
@@ -255,7 +261,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 		return NULL;
 	} 
 	
-	int err = hdbscan_rerun(scan, self->minPoints);
+	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
     enum NPY_TYPES tp = NPY_SHORT;
@@ -266,7 +272,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
         tp = NPY_LONG;
     }
 
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
     Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
@@ -287,7 +293,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(scan->clusterLabels, begin, end);
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -321,11 +327,11 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     int64_t level;
 	hierarchy_entry* data;
 
-    for(size_t i = 0; i < hashtable_size(scan->hierarchy); i++) {
+    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {
         
-		set_value_at(scan->hierarchy->keys, i, &level);
-        hashtable_lookup(scan->hierarchy, &level, &data);
-        npy_intp dims[] = {scan->numPoints, 1};
+		set_value_at(self->scan->hierarchy->keys, i, &level);
+        hashtable_lookup(self->scan->hierarchy, &level, &data);
+        npy_intp dims[] = {self->scan->numPoints, 1};
         PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
-- 
2.43.0


From d77b8dbcc21a1e23dba86a5c565c93e500e34d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:51 +0000
Subject: [PATCH 53/80] fix: Python refuses a minPoints that cannot be used
 with an exception

---
 modules/python/src/PyHdbscan.c | 43 +++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 199837a..3e94613 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -110,6 +110,26 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     return (PyObject *)self;
 }
 
+/**
+ * @brief Check that a number of points can be used as minPoints. An exception is set if it cannot.
+ * 
+ * @param minPoints 
+ * @return int 1 if the value can be used, 0 otherwise
+ */
+static int PyHdbscan_checkMinPoints(long minPoints) {
+    if(minPoints < 2) {
+        PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2.");
+        return 0;
+    }
+
+    if((unsigned long)minPoints > (unsigned long)((index_t)-1)) {
+        PyErr_SetString(PyExc_OverflowError, "minPoints is too large.");
+        return 0;
+    }
+
+    return 1;
+}
+
 /**
  * @brief 
  * 
@@ -123,22 +143,16 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 {
     static char *kwlist[] = {"minPoints", NULL};
 
-    char* c;
-    if(sizeof(index_t) == sizeof(int)) {
-        c = "I";
-    } else if(sizeof(index_t) == sizeof(long)) {
-        c = "k";
-    } else {
-        c ="H";
-    }
+    long minPoints;
 
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &self->minPoints))
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "l", kwlist, &minPoints))
         return -1;
     
-    if(self->minPoints < 2){
+    if(!PyHdbscan_checkMinPoints(minPoints)){
 		return -1;
 	} 
 	
+    self->minPoints = (index_t)minPoints;
     if(self->scan != NULL) {
 		hdbscan_destroy(self->scan);
 	}
@@ -252,15 +266,16 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
  * @return PyObject* 
  */
 static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
-	Py_XDECREF(self->labels); 
-    if (!PyArg_ParseTuple(args, "i", &self->minPoints))
+    long minPoints;
+    if (!PyArg_ParseTuple(args, "l", &minPoints))
         return NULL;
     
-    if(self->minPoints < 2){
-        printf("minPts must be greater than 2.\n");
+    if(!PyHdbscan_checkMinPoints(minPoints)){
 		return NULL;
 	} 
 	
+	Py_CLEAR(self->labels);
+	self->minPoints = (index_t)minPoints;
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
-- 
2.43.0


From e560f811497d71b6110a30f2b57eea1894ab51e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:52 +0000
Subject: [PATCH 54/80] fix: Python attributes are read with the type they have

---
 modules/python/src/PyHdbscan.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 3e94613..5d10192 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -368,6 +368,8 @@ static PyMethodDef PyHdbscan_methods[] = {
     {NULL}  /* Sentinel */
 };
 
+#define PY_INDEX_MEMBER (sizeof(index_t) == sizeof(short) ? T_USHORT : sizeof(index_t) == sizeof(int) ? T_UINT : T_ULONG)
+
 /**
  * @brief PyHdbscan members
  * 
@@ -376,9 +378,9 @@ static PyMemberDef PyHdbscan_members[] = {
     {"labels", T_OBJECT_EX, offsetof(PyHdbscan, labels), 0, "Cluster labels"},
     {"clusterMap", T_OBJECT_EX, offsetof(PyHdbscan, clusterMap), 0, "Dictionary of the clusters and the points"},
     {"hierarchy", T_OBJECT_EX, offsetof(PyHdbscan, hierarchy), 0, "Dictionary of the hierarchies"},
-    {"minPoints", T_INT, offsetof(PyHdbscan, minPoints), 0, "Minimum number of point in a cluster"},
-    {"rows", T_INT, offsetof(PyHdbscan, rows), 0, "number of data points"},
-    {"cols", T_INT, offsetof(PyHdbscan, cols), 0, "The size of each data point"},
+    {"minPoints", PY_INDEX_MEMBER, offsetof(PyHdbscan, minPoints), 0, "Minimum number of point in a cluster"},
+    {"rows", PY_INDEX_MEMBER, offsetof(PyHdbscan, rows), 0, "number of data points"},
+    {"cols", PY_INDEX_MEMBER, offsetof(PyHdbscan, cols), 0, "The size of each data point"},
     {NULL}  /* Sentinel */
 };
 
-- 
2.43.0


From b10a40a0d5a264680e55e823416b92d1292480c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:53 +0000
Subject: [PATCH 55/80] fix: Python methods used too early or outside the
 points raise exceptions

---
 modules/python/src/PyHdbscan.c | 55 ++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 5d10192..de731e2 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -161,6 +161,28 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
     return 0;
 }
 
+/**
+ * @brief Check that the object was initialised and, if asked, that it holds the results of a run. 
+ * An exception is set if it is not the case.
+ * 
+ * @param self 
+ * @param results 
+ * @return int 1 if the object can be used, 0 otherwise
+ */
+static int PyHdbscan_checkState(PyHdbscan *self, int results) {
+    if(self->scan == NULL) {
+        PyErr_SetString(PyExc_RuntimeError, "The object was not initialised.");
+        return 0;
+    }
+
+    if(results && (self->scan->clusterLabels == NULL || self->scan->hierarchy == NULL)) {
+        PyErr_SetString(PyExc_RuntimeError, "There are no results, the clustering has not been run.");
+        return 0;
+    }
+
+    return 1;
+}
+
 /**
  * @brief Get the labels object
  * 
@@ -195,6 +217,9 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
 	
 	PyObject *dataset;
 	    
+    if(!PyHdbscan_checkState(self, 0))
+        return NULL;
+
     if (! PyArg_ParseTuple(args, "O", &dataset)){
         return NULL;
 	}
@@ -266,6 +291,14 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
  * @return PyObject* 
  */
 static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
+    if(!PyHdbscan_checkState(self, 0))
+        return NULL;
+
+    if(self->scan->numPoints == 0) {
+        PyErr_SetString(PyExc_RuntimeError, "There is no dataset to cluster again.");
+        return NULL;
+    }
+
     long minPoints;
     if (!PyArg_ParseTuple(args, "l", &minPoints))
         return NULL;
@@ -294,10 +327,19 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->clusterMap); 
-    int32_t begin, end;
-    if (!PyArg_ParseTuple(args, "ii", &begin, &end))
+    long begin, end;
+    if (!PyArg_ParseTuple(args, "ll", &begin, &end))
+        return NULL;
+
+    if(!PyHdbscan_checkState(self, 1))
+        return NULL;
+
+    if(begin < 0 || end < begin || (unsigned long)end > (unsigned long)self->scan->numPoints) {
+        PyErr_SetString(PyExc_IndexError, "The range is not inside the clustered points.");
         return NULL;
+    }
+
+    Py_CLEAR(self->clusterMap);
 
     enum NPY_TYPES tp = NPY_SHORT;
 
@@ -308,7 +350,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, (index_t)begin, (index_t)end);
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -328,7 +370,10 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->hierarchy); 
+    if(!PyHdbscan_checkState(self, 1))
+        return NULL;
+
+    Py_CLEAR(self->hierarchy);
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
-- 
2.43.0


From 423dcada9aae9a09f23e46113002d63670ef544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:19 +0000
Subject: [PATCH 56/80] fix: Python datasets are checked and their contiguous
 copy is released

---
 modules/python/src/PyHdbscan.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index de731e2..f5695c7 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -224,7 +224,12 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         return NULL;
 	}
     
-    int typenum = PyArray_TYPE(dataset);
+    if(!PyArray_Check(dataset)) {
+        PyErr_SetString(PyExc_TypeError, "The dataset must be a numpy array.");
+        return NULL;
+    }
+
+    int typenum = PyArray_TYPE((PyArrayObject*)dataset);
     uint datatype;
 
     /// Determine the datatype from the array
@@ -249,36 +254,46 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         datatype = H_SHORT;
     }
     else{
-        printf("Unsupported datatype.\n");
+        PyErr_SetString(PyExc_TypeError, "Unsupported datatype.");
         return NULL;
     }
 
-    Py_INCREF(dataset);    
-    
     // Create a contigous array from dataset
     PyArrayObject* d_arr = (PyArrayObject*)PyArray_ContiguousFromAny(dataset, typenum, 0, 0);
+    if(d_arr == NULL)
+        return NULL;
 	
     int nd = PyArray_NDIM(d_arr);
 	npy_intp *dimensions = PyArray_DIMS(d_arr);
 
+    // Only vectors and tables that are not empty can be clustered
+    if(nd < 1 || nd > 2 || PyArray_SIZE(d_arr) < 1 || (npy_uintp)dimensions[0] > (npy_uintp)((index_t)-1)
+        || (nd == 2 && (npy_uintp)dimensions[1] > (npy_uintp)((index_t)-1)))
+    {
+        Py_DECREF(d_arr);
+        PyErr_SetString(PyExc_ValueError, "The dataset must be a one or two dimensional array with data.");
+        return NULL;
+    }
+
     // Get numpy array dimensions
     if(nd == 1)
     {
         self->cols = 1;
-        self->rows = (uint)*dimensions;
+        self->rows = (index_t)*dimensions;
     } else {
-        self->rows = (uint)dimensions[0];
-        self->cols = (uint)dimensions[1];
+        self->rows = (index_t)dimensions[0];
+        self->cols = (index_t)dimensions[1];
     }
 	
     void *dset = PyArray_DATA(d_arr); /// The contigous array
 	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
+    Py_DECREF(d_arr); // Release the dataset memory
+
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
     get_labels(self, self->scan->clusterLabels);
 
     Py_INCREF(self->labels);
-    Py_XDECREF(dataset); // Release the dataset memory
 
 	return Py_BuildValue("i", err);
 }
-- 
2.43.0


From 3acba17c6087940567a31b82f2b13ab55d4a6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 57/80] fix: arrays handed to Python hold their own copy of the
 labels

---
 modules/python/src/PyHdbscan.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index f5695c7..d2a24ef 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -183,6 +183,24 @@ static int PyHdbscan_checkState(PyHdbscan *self, int results) {
     return 1;
 }
 
+/**
+ * @brief Create an array that holds its own copy of some labels
+ * 
+ * @param labels 
+ * @param size 
+ * @param type 
+ * @return PyObject* 
+ */
+static PyObject* PyHdbscan_copyLabels(label_t* labels, size_t size, int type) {
+    npy_intp dims[] = {(npy_intp)size};
+    PyObject* value = PyArray_SimpleNew(1, dims, type);
+
+    if(value != NULL && size > 0)
+        memcpy(PyArray_DATA((PyArrayObject*)value), labels, size * sizeof(label_t));
+
+    return value;
+}
+
 /**
  * @brief Get the labels object
  * 
@@ -374,12 +392,12 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         PyObject* key = Py_BuildValue("i", label);
         ArrayList* lst;
         hashtable_lookup(tmp, &label, &lst);
-        npy_intp dims[] = {lst->size, 1};
-        label_t* labels = lst->data;
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, labels);
+        PyObject* value = PyHdbscan_copyLabels(lst->data, lst->size, tp);
         PyDict_SetItem(self->clusterMap, key, value);
     }
 
+    hdbscan_destroy_cluster_map(tmp);
+
     Py_INCREF(self->clusterMap);
     return self->clusterMap;
 }
@@ -406,8 +424,7 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
         
 		set_value_at(self->scan->hierarchy->keys, i, &level);
         hashtable_lookup(self->scan->hierarchy, &level, &data);
-        npy_intp dims[] = {self->scan->numPoints, 1};
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
+        PyObject* value = PyHdbscan_copyLabels(data->labels, self->scan->numPoints, tp);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
     }
-- 
2.43.0


From 9b52e910263d00572a1747a92818a48f42f3cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:40 +0000
Subject: [PATCH 58/80] fix: Python lists, dictionaries and arrays are released

---
 modules/python/src/PyHdbscan.c | 53 +++++++++++++++-------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index d2a24ef..4a3b99f 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -202,26 +202,27 @@ static PyObject* PyHdbscan_copyLabels(label_t* labels, size_t size, int type) {
 }
 
 /**
- * @brief Get the labels object
+ * @brief Replace the labels of the object. An exception is set if they cannot be created.
  * 
  * @param self 
  * @param labels 
+ * @return int 1 on success, 0 otherwise
  */
-void get_labels(PyHdbscan *self, label_t *labels){
-    char* c;
-    if(sizeof(label_t) == sizeof(int)) {
-        c = "I";
-    } else if(sizeof(label_t) == sizeof(long)) {
-        c = "k";
-    } else {
-        c ="H";
+int get_labels(PyHdbscan *self, label_t *labels){
+    index_t size = self->scan->numPoints;
+    PyObject* list = PyList_New((Py_ssize_t)size);
+
+    for(index_t i = 0; list != NULL && i < size; i++){
+        PyObject* label = PyLong_FromUnsignedLong((unsigned long)labels[i]);
+
+        if(label == NULL)
+            Py_CLEAR(list);
+        else
+            PyList_SET_ITEM(list, (Py_ssize_t)i, label);
     }
-    
-    self->labels = PyList_New(0);
 
-	for(uint i = 0; i < self->rows; i++){
-		PyList_Append(self->labels, Py_BuildValue(c, labels[i]));
-	}
+    Py_XSETREF(self->labels, list);
+    return list != NULL;
 }
 
 /**
@@ -308,10 +309,8 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
 
     Py_DECREF(d_arr); // Release the dataset memory
 
-    npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
-    get_labels(self, self->scan->clusterLabels);
-
-    Py_INCREF(self->labels);
+    if(!get_labels(self, self->scan->clusterLabels))
+        return NULL;
 
 	return Py_BuildValue("i", err);
 }
@@ -344,17 +343,8 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 	self->minPoints = (index_t)minPoints;
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
-    npy_intp dims[] = {self->rows, 1};
-    enum NPY_TYPES tp = NPY_SHORT;
-
-    if(sizeof(label_t) == sizeof(int)) {
-        tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
-        tp = NPY_LONG;
-    }
-
-    get_labels(self, self->scan->clusterLabels);
-    Py_INCREF(self->labels);
+    if(!get_labels(self, self->scan->clusterLabels))
+        return NULL;
 	
 	return Py_BuildValue("i", err);
 }
@@ -394,6 +384,8 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         hashtable_lookup(tmp, &label, &lst);
         PyObject* value = PyHdbscan_copyLabels(lst->data, lst->size, tp);
         PyDict_SetItem(self->clusterMap, key, value);
+        Py_XDECREF(key);
+        Py_XDECREF(value);
     }
 
     hdbscan_destroy_cluster_map(tmp);
@@ -427,9 +419,10 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
         PyObject* value = PyHdbscan_copyLabels(data->labels, self->scan->numPoints, tp);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
+        Py_XDECREF(key);
+        Py_XDECREF(value);
     }
     
-    Py_INCREF(self->hierarchy);
     return Py_BuildValue("i", err);
 }
 
-- 
2.43.0


From 0b4d4d159c86b97a767090b34cc12680c85d52e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:10 +0000
Subject: [PATCH 59/80] fix: a minPoints larger than the dataset needs no stack
 memory

---
 src/distance.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/distance.c b/src/distance.c
index ade2e35..b526f15 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -222,6 +222,15 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 void distance_get_core_distances(distance *dis)
 {
 	
+	/// No point has that many neighbours
+	if(dis->numNeighbors >= dis->rows) {
+		for (index_t i = 0; i < dis->rows; i++) {
+			dis->coreDistances[i] = D_MAX;
+		}
+
+		return;
+	}
+
 	distance_t sortedDistance[dis->numNeighbors+1];
 #ifdef _OPENMP	
 #pragma omp parallel for private(sortedDistance)
-- 
2.43.0


From a8886d66e0ac7a74fb35f946fbf929cbc703859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:12 +0000
Subject: [PATCH 60/80] fix: a cluster map that cannot be allocated is reported

---
 src/hdbscan.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e8ee36e..1008085 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1371,6 +1371,15 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		clusterTable = hashtable_init(bsize, H_SHORT, H_PTR, short_compare);		
 	}
 
+	if(clusterTable == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_create_cluster_map - Could not allocate memory for the cluster map.\n");
+	#else
+		printf("FATAL: hdbscan_create_cluster_map - Could not allocate memory for the cluster map.\n");
+	#endif
+		return NULL;
+	}
+
 	clusterTable->size = 0;
 	index_t size = (index_t)(end - begin);
 	
@@ -1381,6 +1390,11 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 
 		if(clusterList == NULL){
 			clusterList = array_list_init(size/3 + 1, sizeof(index_t), NULL);
+			if(clusterList == NULL){
+				hdbscan_destroy_cluster_map(clusterTable);
+				return NULL;
+			}
+
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
@@ -1388,9 +1402,16 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 			} else {
 				clusterList->compare = short_compare;		
 			}
-			hashtable_insert(clusterTable, lb, &clusterList);
+			if(hashtable_insert(clusterTable, lb, &clusterList) != 1){
+				array_list_delete(clusterList);
+				hdbscan_destroy_cluster_map(clusterTable);
+				return NULL;
+			}
+		}
+		if(array_list_append(clusterList, &i) != 1){
+			hdbscan_destroy_cluster_map(clusterTable);
+			return NULL;
 		}
-		array_list_append(clusterList, &i);
 	}
 
 	return clusterTable;
-- 
2.43.0


From 6cabe23df547acd937ed742717652e340f12abd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:13 +0000
Subject: [PATCH 61/80] fix: Python reports runs that fail and memory that is
 exhausted

---
 modules/python/src/PyHdbscan.c | 66 +++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 16 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 4a3b99f..a7ba212 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -157,6 +157,11 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 		hdbscan_destroy(self->scan);
 	}
     self->scan = hdbscan_init(NULL, self->minPoints);
+
+    if(self->scan == NULL) {
+        PyErr_NoMemory();
+        return -1;
+    }
 	
     return 0;
 }
@@ -202,13 +207,37 @@ static PyObject* PyHdbscan_copyLabels(label_t* labels, size_t size, int type) {
 }
 
 /**
- * @brief Replace the labels of the object. An exception is set if they cannot be created.
+ * @brief Put a value in a dictionary. The references to the key and the value are taken over. 
+ * An exception is set if it cannot be done.
+ * 
+ * @param dict 
+ * @param key 
+ * @param value 
+ * @return int 1 on success, 0 otherwise
+ */
+static int PyHdbscan_setItem(PyObject* dict, PyObject* key, PyObject* value) {
+    int done = key != NULL && value != NULL && PyDict_SetItem(dict, key, value) == 0;
+
+    Py_XDECREF(key);
+    Py_XDECREF(value);
+
+    return done;
+}
+
+/**
+ * @brief Replace the labels of the object. An exception is set if they cannot be created. A run that failed
+ * has no labels, the object has none after it either.
  * 
  * @param self 
  * @param labels 
  * @return int 1 on success, 0 otherwise
  */
 int get_labels(PyHdbscan *self, label_t *labels){
+    if(labels == NULL) {
+        Py_CLEAR(self->labels);
+        return 1;
+    }
+
     index_t size = self->scan->numPoints;
     PyObject* list = PyList_New((Py_ssize_t)size);
 
@@ -326,7 +355,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
     if(!PyHdbscan_checkState(self, 0))
         return NULL;
 
-    if(self->scan->numPoints == 0) {
+    if(self->scan->distanceFunction.distances == NULL) {
         PyErr_SetString(PyExc_RuntimeError, "There is no dataset to cluster again.");
         return NULL;
     }
@@ -372,26 +401,28 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         tp = NPY_LONG;
     }
 
-    int err = 1;
     hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, (index_t)begin, (index_t)end);
-    self->clusterMap = PyDict_New();
+    if(tmp == NULL)
+        return PyErr_NoMemory();
+
+    PyObject* map = PyDict_New();
     label_t label;
 
-    for(size_t i = 0; i < tmp->size; i++) {
+    for(size_t i = 0; map != NULL && i < tmp->size; i++) {
         label = ((label_t *)tmp->keys->data)[i];
         PyObject* key = Py_BuildValue("i", label);
         ArrayList* lst;
         hashtable_lookup(tmp, &label, &lst);
         PyObject* value = PyHdbscan_copyLabels(lst->data, lst->size, tp);
-        PyDict_SetItem(self->clusterMap, key, value);
-        Py_XDECREF(key);
-        Py_XDECREF(value);
+        if(!PyHdbscan_setItem(map, key, value))
+            Py_CLEAR(map);
     }
 
     hdbscan_destroy_cluster_map(tmp);
 
-    Py_INCREF(self->clusterMap);
-    return self->clusterMap;
+    Py_XINCREF(map);
+    self->clusterMap = map;
+    return map;
 }
 
 static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
@@ -408,21 +439,24 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    self->hierarchy = PyDict_New();
+    PyObject* hierarchy = PyDict_New();
     int64_t level;
 	hierarchy_entry* data;
 
-    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {
+    for(size_t i = 0; hierarchy != NULL && i < hashtable_size(self->scan->hierarchy); i++) {
         
 		set_value_at(self->scan->hierarchy->keys, i, &level);
         hashtable_lookup(self->scan->hierarchy, &level, &data);
         PyObject* value = PyHdbscan_copyLabels(data->labels, self->scan->numPoints, tp);
         PyObject* key = Py_BuildValue("k", level);
-        PyDict_SetItem(self->hierarchy, key, value);
-        Py_XDECREF(key);
-        Py_XDECREF(value);
+        if(!PyHdbscan_setItem(hierarchy, key, value))
+            Py_CLEAR(hierarchy);
     }
-    
+
+    if(hierarchy == NULL)
+        return NULL;
+
+    self->hierarchy = hierarchy;
     return Py_BuildValue("i", err);
 }
 
-- 
2.43.0


From 9183ebe93748508c722452633df045676325e841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:16 +0000
Subject: [PATCH 62/80] fix: the distances of many points are given the memory
 they need

---
 modules/utils/include/hdbscan/utils.h | 4 ++--
 src/distance.c                        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/utils/include/hdbscan/utils.h b/modules/utils/include/hdbscan/utils.h
index e28f6c5..178853b 100644
--- a/modules/utils/include/hdbscan/utils.h
+++ b/modules/utils/include/hdbscan/utils.h
@@ -160,9 +160,9 @@ int32_t ptr_ptr_compare(const void * ptr_a, const void * ptr_b);
  * @brief Calculate the triangular number of n
  * 
  * @param n 
- * @return uint 
+ * @return size_t 
  */
-inline uint TRIANGULAR_H(uint n) {
+inline size_t TRIANGULAR_H(size_t n) {
 	return (n * n + n) / 2;
 }
 
diff --git a/src/distance.c b/src/distance.c
index b526f15..337030c 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -114,12 +114,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = (size_t) ((size_t)dis->rows * row + col - TRIANGULAR_H((size_t)row + 1));
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = (size_t)((size_t)dis->rows * col + row - TRIANGULAR_H((size_t)col + 1));
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +139,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	if(dis->distances == NULL || dis->coreDistances == NULL) {
@@ -198,7 +198,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 			// Calculate the linearised upper triangular matrix offset
 			size_t offset = i * dis->rows + j;
-			size_t c = offset - TRIANGULAR_H((uint)i + 1);		
+			size_t c = offset - TRIANGULAR_H(i + 1);		
 			dis->distances[c] = sum;			
 		}
 	}
-- 
2.43.0


From 3c98e4d7c5cabbf082e2e7d0d969ad942c7a0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:18 +0000
Subject: [PATCH 63/80] fix: distance maps and sorted lists that cannot be
 allocated are reported

---
 src/hdbscan.c | 73 +++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 68 insertions(+), 5 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1008085..d429a38 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1436,6 +1436,15 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 		distanceMap = hashtable_init_size(clusterTable->size, H_SHORT, H_PTR, short_compare);		
 	}
 
+	if(distanceMap == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_get_min_max_distances - Could not allocate memory for the distance map.\n");
+	#else
+		printf("FATAL: hdbscan_get_min_max_distances - Could not allocate memory for the distance map.\n");
+	#endif
+		return NULL;
+	}
+
 	distance_t* core = sc->distanceFunction.coreDistances;
 	distance_t zero = 0.0000000000000000000;
 	label_t key;
@@ -1455,6 +1464,11 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 			if(dl == NULL)
 			{
 				dl = (distance_values *)malloc(sizeof(distance_values));				
+				if(dl == NULL){
+					hdbscan_destroy_distance_map(distanceMap);
+					return NULL;
+				}
+
 				dl->min_cr = core[index];
 				dl->max_cr = core[index];
 				dl->cr_confidence = 0.0;
@@ -1462,7 +1476,11 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				dl->min_dr = D_MAX;
 				dl->max_dr = D_MIN;
 				dl->dr_confidence = 0.0;
-				hashtable_insert(distanceMap, &key, &dl);
+				if(hashtable_insert(distanceMap, &key, &dl) != 1){
+					free(dl);
+					hdbscan_destroy_distance_map(distanceMap);
+					return NULL;
+				}
 			} else {
 
 				if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){
@@ -1781,6 +1799,23 @@ void hdbscan_quicksort(ArrayList *clusters, ArrayList *sortData, int32_t left, i
 	}
 }
 
+/**
+ * @brief Release what a sort that ran out of memory has made. A list given by the caller is empty again.
+ * 
+ * @param clusters 
+ * @param sortData 
+ * @param given 
+ */
+static void hdbscan_abandon_sort(ArrayList *clusters, ArrayList *sortData, boolean given){
+	array_list_delete(sortData);
+
+	if(given){
+		clusters->size = 0;
+	} else {
+		array_list_delete(clusters);
+	}
+}
+
 /**
  * @brief Sorts the clusters using the distances in the distanceMap. This
  * function requires that the confidences be already calculates. This
@@ -1795,8 +1830,13 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
+	boolean given = TRUE;       /// The list belongs to the caller
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(distanceMap) + 1, sizeof(label_t), NULL);
+		if(clusters == NULL){
+			return NULL;
+		}
+		given = FALSE;
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1812,6 +1852,13 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 		distances = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
+	if(distances == NULL){
+		if(!given){
+			array_list_delete(clusters);
+		}
+		return NULL;
+	}
+
 	if(sizeof(distance_t) == sizeof(double)) {
 		distances->compare = double_compare;
 	} else {
@@ -1831,7 +1878,6 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			key = ((label_t *)distanceMap->keys->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 		
-			array_list_append(clusters, &key);
 			distance_t conf;
 
 			if(distanceType == CORE_DISTANCE_TYPE){
@@ -1840,7 +1886,10 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 				conf = dv->dr_confidence;
 			}
 
-			array_list_append(distances, &conf);		
+			if(array_list_append(clusters, &key) != 1 || array_list_append(distances, &conf) != 1){
+				hdbscan_abandon_sort(clusters, distances, given);
+				return NULL;
+			}
 		}
 
 	} else { /// else we just need to get the lengths from the hash table
@@ -1884,8 +1933,13 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
 	assert(clusterTable != NULL);
 	ArrayList *lengths;
+	boolean given = TRUE;       /// The list belongs to the caller
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
+		if(clusters == NULL){
+			return NULL;
+		}
+		given = FALSE;
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1900,6 +1954,13 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		lengths = array_list_init(clusters->size + 1, sizeof(distance_t), NULL);
 	}
 	
+	if(lengths == NULL){
+		if(!given){
+			array_list_delete(clusters);
+		}
+		return NULL;
+	}
+
 	if(sizeof(distance_t) == sizeof(double)) {
 		lengths->compare = double_compare;
 	} else {
@@ -1915,9 +1976,11 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 			ArrayList *lst = NULL;
 			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
-			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-			array_list_append(lengths, &tmp);
+			if(array_list_append(clusters, &key) != 1 || array_list_append(lengths, &tmp) != 1){
+				hdbscan_abandon_sort(clusters, lengths, given);
+				return NULL;
+			}
 		}
 
 	} else { /// else we just need to get the lengths from the hash table
-- 
2.43.0


From 377f256b37599d06791147c563eebe685de0db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:20 +0000
Subject: [PATCH 64/80] fix: the statistics of no clusters read nothing

---
 src/hdbscan.c   | 13 +++++++------
 src/hdbscan.cpp |  4 ++--
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index d429a38..817bf49 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1593,11 +1593,12 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
  */
 void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_stats* stats){
 	
-	stats->coreDistanceValues.mean = cr[0];
-	stats->coreDistanceValues.max = cr[0];
+	// There is nothing to read when there are no clusters
+	stats->coreDistanceValues.mean = stats->count > 0 ? cr[0] : 0;
+	stats->coreDistanceValues.max = stats->coreDistanceValues.mean;
 
-	stats->intraDistanceValues.mean = dr[0];
-	stats->intraDistanceValues.max = dr[0];
+	stats->intraDistanceValues.mean = stats->count > 0 ? dr[0] : 0;
+	stats->intraDistanceValues.max = stats->intraDistanceValues.mean;
 
 	for(index_t i = 1; i < stats->count; i++)
 	{
@@ -1660,8 +1661,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
  */
 void hdbscan_calculate_stats(hashtable* distanceMap, clustering_stats* stats){
 
-	distance_t cr[hashtable_size(distanceMap)];
-	distance_t dr[hashtable_size(distanceMap)];
+	distance_t cr[hashtable_size(distanceMap) + 1];
+	distance_t dr[hashtable_size(distanceMap) + 1];
 	label_t key;
 	distance_values* dl = NULL;
 	
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 3a07765..7ffedb0 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -156,8 +156,8 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 
 void calculateStats(map<label_t, distance_values>& distanceMap, clustering_stats& stats){
 
-	distance_t cr[distanceMap.size()];
-	distance_t dr[distanceMap.size()];
+	distance_t cr[distanceMap.size() + 1];
+	distance_t dr[distanceMap.size() + 1];
 	index_t c = 0;
 
 	for(map<label_t, distance_values>::iterator it = distanceMap.begin(); it != distanceMap.end(); ++it){
-- 
2.43.0


From eabc12b55910d05661c024ab32bbd96911c794b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:45 +0000
Subject: [PATCH 65/80] fix: quickSort of the C++ API threw nothing and wrote
 through a null pointer when its lists could not be allocated

---
 src/hdbscan.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 7ffedb0..eb1ba5f 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -40,6 +40,7 @@
  */
 #ifdef __cplusplus
 #include <limits>
+#include <new>
 #include "hdbscan/hdbscan.hpp"
 namespace clustering {
 
@@ -321,14 +322,20 @@ void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t
 		return;
 
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
+	ArrayList* c_data = array_list_init(clusters.size(), sizeof(label_t), NULL);
+	if(d_data == NULL || c_data == NULL) {
+		array_list_delete(d_data);
+		array_list_delete(c_data);
+
+		throw std::bad_alloc();
+	}
+
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
 	} else {
 		d_data->compare = float_compare;
 	}
 
-	ArrayList* c_data = array_list_init(clusters.size(), sizeof(label_t), NULL);
-	
 	if(sizeof(label_t) == sizeof(int)) {
 		c_data->compare = int_compare;
 	} else if(sizeof(label_t) == sizeof(long)) {
-- 
2.43.0


From 5d830482eded1f4550d4ec0d2969b1e77c7c714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:50 +0000
Subject: [PATCH 66/80] fix: C++ callers read wrong members of graphs,
 clusters, constraints and outlier scores, whose virtual destructors changed
 the layout the C code uses

---
 include/hdbscan/cluster.h          | 2 +-
 include/hdbscan/constraint.h       | 2 +-
 include/hdbscan/outlier_score.h    | 2 +-
 include/hdbscan/undirected_graph.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 1404bd2..4d7dd55 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -87,7 +87,7 @@ public:
 	 */
 	Cluster(label_t label, Cluster* parent, distance_t birthLevel, index_t numPoints);
 
-	virtual ~Cluster();
+	~Cluster();
 
 	/**
 	 * @brief Removes the specified number of points from this cluster at the given edge level, which will
diff --git a/include/hdbscan/constraint.h b/include/hdbscan/constraint.h
index 8d97014..adae753 100644
--- a/include/hdbscan/constraint.h
+++ b/include/hdbscan/constraint.h
@@ -80,7 +80,7 @@ public:
 	 * @param type The CONSTRAINT_TYPE of the constraint
 	 */
 	Constraint(int pointA, int pointB, CONSTRAINT_TYPE type);
-	virtual ~Constraint();
+	~Constraint();
 #endif
 
 
diff --git a/include/hdbscan/outlier_score.h b/include/hdbscan/outlier_score.h
index 5ff5923..71b8efa 100644
--- a/include/hdbscan/outlier_score.h
+++ b/include/hdbscan/outlier_score.h
@@ -76,7 +76,7 @@ public:
 	 * @brief Destroy the Outlier Score object
 	 * 
 	 */
-	virtual ~OutlierScore();
+	~OutlierScore();
 
 	// ------------------------------ PUBLIC METHODS ------------------------------
 	/**
diff --git a/include/hdbscan/undirected_graph.h b/include/hdbscan/undirected_graph.h
index d7a6c1d..d4e9a03 100644
--- a/include/hdbscan/undirected_graph.h
+++ b/include/hdbscan/undirected_graph.h
@@ -56,7 +56,7 @@ struct UndirectedGraph {
 
 #ifdef __cplusplus
 public:
-	virtual ~UndirectedGraph();
+	~UndirectedGraph();
 	// ------------------------------ CONSTRUCTORS ------------------------------
 
 	/**
-- 
2.43.0


From 7b8746e0e43635c3d9bfcac0778ea9d3520639f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:51 +0000
Subject: [PATCH 67/80] fix: a cluster that could not be created left its
 parent marked as having children

---
 src/cluster.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 30ffd67..5895148 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -72,8 +72,6 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 		cl->numConstraintsSatisfied = 0;
 		cl->propagatedNumConstraintsSatisfied = 0;
 		cl->parent = parent;
-		if (cl->parent != NULL)
-			cl->parent->hasChildren = TRUE;
 		cl->hasChildren = FALSE;
 		cl->virtualChildCluster = set_init(sizeof(index_t), NULL);
 		cl->propagatedDescendants = ptr_array_list_init(1, cluster_compare);
@@ -87,6 +85,9 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 			return NULL;
 		}
 
+		if (cl->parent != NULL)
+			cl->parent->hasChildren = TRUE;
+
 		if(sizeof(index_t) == sizeof(int)) {
 			cl->virtualChildCluster->compare = int_compare;
 		} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From af12e99a6890eeda3baa974ae4ca7119e26d97ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:53 +0000
Subject: [PATCH 68/80] fix: releasing the virtual child of a cluster destroyed
 the parent cluster instead

---
 src/cluster.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 5895148..fa1814b 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -249,8 +249,9 @@ void cluster_add_constraints_satisfied(cluster* cl, index_t numConstraints){
 
 void cluster_release_virtual_child(cluster* cl){
 
-	if(cl->parent != NULL){
-		cluster_destroy(cl->parent);
+	if(cl->virtualChildCluster != NULL){
+		set_delete(cl->virtualChildCluster);
+		cl->virtualChildCluster = NULL;
 	}
 }
 
-- 
2.43.0


From 133dcd512a0ea7a5e6f32bf7b68aa6b461b60e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:54 +0000
Subject: [PATCH 69/80] fix: a graph made without edge lists read them through
 a null pointer

---
 src/undirected_graph.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index c1f2e84..eec8c48 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -115,7 +115,8 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 	}
 
 	index_t vertexOne, vertexTwo;
-	for (index_t i = 0; i < g->verticesA->size; i++) {
+	index_t numEdges = g->verticesA == NULL ? 0 : (index_t)g->verticesA->size;
+	for (index_t i = 0; i < numEdges; i++) {
 		
 		array_list_value_at(g->verticesA, i, &vertexOne);
 		array_list_value_at(g->verticesB, i, &vertexTwo);
-- 
2.43.0


From 81eb86864dd917e1c9de98aeb394ece282255b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:56 +0000
Subject: [PATCH 70/80] fix: distances computed again leaked the earlier ones

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 337030c..7659efc 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -135,6 +135,7 @@ distance_t distance_get(distance* dis, index_t row, index_t col) {
  * @param numNeighbors 
  */
 void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors){
+	distance_clean(dis); // release the distances computed earlier
 	dis->numNeighbors = numNeighbors;
 	
 	dis->rows = rows;
-- 
2.43.0


From c4fc69b52db2e81b308b334a9a55e8038abdfe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:25 +0000
Subject: [PATCH 71/80] fix: destroying a clustering or distance object that
 does not exist read through a null pointer

---
 src/distance.c | 5 +++--
 src/hdbscan.c  | 3 +--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 7659efc..3ff3f58 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -79,9 +79,10 @@ distance* distance_init(distance* dis, calculator cal, enum HTYPES datatype) {
  * @param d 
  */
 void distance_destroy(distance* d) {
-	distance_clean(d);
-	if(d != NULL)
+	if(d != NULL){
+		distance_clean(d);
 		free(d);
+	}
 }
 
 /**
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 817bf49..a58bbfc 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -222,9 +222,8 @@ void hdbscan_clean(hdbscan* sc){
  * @param sc 
  */
 void hdbscan_destroy(hdbscan* sc){
-	hdbscan_clean(sc);
-
 	if(sc != NULL){
+		hdbscan_clean(sc);
 		free(sc);
 	}
 
-- 
2.43.0


From ce8925c79e5acc6784fcb3a363f8bff6e9d4da91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:39 +0000
Subject: [PATCH 72/80] fix: warn of infinite cluster stability

hdbscan_propagate_tree compared the stability with the largest finite
value, so the warning for infinite stability was never given and the
documented return value was always FALSE.
---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index a58bbfc..7c1ab50 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1174,7 +1174,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 			failed = TRUE;
 		}
 
-		if(currentCluster->stability == D_MAX){
+		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From 9dc593c1e11b2496a384ea05cf43405bd076ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:46 +0000
Subject: [PATCH 73/80] fix: hash the characters of a string key

---
 modules/utils/src/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index bac32c8..fd6a866 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -357,7 +357,7 @@ size_t float_hash(void* key, size_t buckets)
 
 size_t str_hash(void *key, size_t buckets)
 {
-    const char *cptr = key;
+    const char *cptr = *(char **)key; // the keys are pointers to the strings
     unsigned int val = 0;
 
     while(*cptr != '\0')
-- 
2.43.0


From 7f5caa2ddc8be7dee2da0339b4c8f5e08ac7195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:49 +0000
Subject: [PATCH 74/80] fix: print labels and points of every configured type

---
 src/hdbscan.c   | 14 +++++++-------
 src/hdbscan.cpp |  8 ++++----
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 7c1ab50..0bca8f6 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -2033,14 +2033,14 @@ void hdbscan_print_cluster_map(hashtable* table){
 		key = ((label_t *)table->keys->data)[i];
 		hashtable_lookup(table, &key, &clusterList);
 		
-		sprintf(s, "%d -> [", key);
+		sprintf(s, "%ld -> [", (long)key);
 		logger_write(NONE, s);
 		
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
 			dpointer = ((index_t *)clusterList->data)[j];
-			sprintf(s, "%d ", dpointer);
+			sprintf(s, "%ld ", (long)dpointer);
 			logger_write(NONE, s);
 		}
 		
@@ -2064,7 +2064,7 @@ void hdbscan_print_cluster_sizes(hashtable* table){
 	{	
 		key = ((label_t *)table->keys->data)[i];
 		hashtable_lookup(table, &key, &clusterList);
-		sprintf(s, "%d : %ld\n", key, clusterList->size);
+		sprintf(s, "%ld : %ld\n", (long)key, clusterList->size);
 		logger_write(NONE, s);
 	}
 }
@@ -2119,9 +2119,9 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 		for(size_t j = 0; j < numPoints; j++){
 			if(hierarchyFile){
-				fprintf(hierarchyFile, "%d,", data->labels[j]);
+				fprintf(hierarchyFile, "%ld,", (long)data->labels[j]);
 			} else {
-				printf("%d ", data->labels[j]);
+				printf("%ld ", (long)data->labels[j]);
 			}
 		}
 
@@ -2170,7 +2170,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
 		distance_values* dv = NULL;
 		set_value_at(distancesMap->keys, i, &key);
 		hashtable_lookup(distancesMap, &key, &dv);
-		sprintf(s, "%d -> {\n", key);
+		sprintf(s, "%ld -> {\n", (long)key);
 		sprintf(s + strlen(s), "\tmin_cr : %f, max_cr : %f, cr_confidence : %f\n", dv->min_cr, dv->max_cr, dv->cr_confidence);
 		sprintf(s + strlen(s), "\tmin_dr : %f, max_dr : %f, dr_confidence : %f\n", dv->min_dr, dv->max_dr, dv->dr_confidence);
 		sprintf(s + strlen(s), "}\n\n");
@@ -2190,7 +2190,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
 void hdbscan_print_stats(clustering_stats* stats){
 	char s[6000];
 	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
-	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
+	sprintf(s + strlen(s), "Cluster Count 					: %ld\n", (long)stats->count);
 	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
 	sprintf(s + strlen(s), "Core Distances - Mean 			: %.5f\n", stats->coreDistanceValues.mean);
 	sprintf(s + strlen(s), "Core Distances - Skewness 		: %.5f\n", stats->coreDistanceValues.skewness);
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index eb1ba5f..ddc8cf4 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -195,10 +195,10 @@ void printClusterMap(map_t& table){
 
 		label_t label = it->first;
 		vector<index_t>& clusterList = it->second;
-		printf("%d -> [", label);
+		printf("%ld -> [", (long)label);
 
 		for(index_t j = 0; j < clusterList.size(); j++){
-			printf("%d ", clusterList[j]);
+			printf("%ld ", (long)clusterList[j]);
 		}
 		printf("]\n");
 	}
@@ -209,7 +209,7 @@ void printClusterSizes(map_t& table){
 
 		label_t label = it->first;
 		vector<index_t>& clusterList = it->second;
-		printf("%d : %ld\n", label, clusterList.size());
+		printf("%ld : %ld\n", (long)label, clusterList.size());
 	}
 }
 
@@ -219,7 +219,7 @@ void printDistanceMap(map<label_t, distance_values>& distancesMap){
 
 	for(map<label_t, distance_values>::iterator it = distancesMap.begin(); it != distancesMap.end(); it++){
 		label_t label = it->first;
-		printf("%d -> {\n", label);
+		printf("%ld -> {\n", (long)label);
 		distance_values* dv = &(it->second);
 
 		printf("min_cr : %f, max_cr : %f, cr_confidence : %f\n", dv->min_cr, dv->max_cr, dv->cr_confidence);
-- 
2.43.0


From 64ccb9b8bbaea09deaaef6b800ca814182cf1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:18 +0000
Subject: [PATCH 75/80] fix: refuse a dataset without points

---
 src/hdbscan.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 0bca8f6..c38a73c 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -340,6 +340,16 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
+	if(sc->numPoints < 1){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_run - The dataset has no points.\n");
+	#else
+		printf("FATAL: hdbscan_run - The dataset has no points.\n");
+	#endif
+
+		return HDBSCAN_ERROR;
+	}
+
 	// Each element is a point of its own when the dataset is not row-wise
 	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
 	if(sc->distanceFunction.distances == NULL){
-- 
2.43.0


From 9b6210cf2550467e32a3da04ae970eab89451960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:18 +0000
Subject: [PATCH 76/80] fix: throw for a minPoints the clustering cannot use

---
 modules/java/src/Hdbscan.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index a5a6af0..05ad709 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -60,6 +60,17 @@ static void throwOutOfMemory(JNIEnv *env){
 	throwNew(env, "java/lang/OutOfMemoryError", "Not enough native memory.");
 }
 
+/**
+ * Throws an exception if the clustering cannot use a number of points.
+ */
+static bool checkMinPoints(JNIEnv *env, jint minPoints){
+	if(minPoints < 2 || (jlong)minPoints > (jlong)((index_t)-1)){
+		throwNew(env, "java/lang/IllegalArgumentException", minPoints < 2 ? "minPoints must be at least 2." : "minPoints is too large.");
+		return false;
+	}
+	return true;
+}
+
 /**
  * The clustering object of a Java object is kept in the "handle" field.
  */
@@ -80,7 +91,7 @@ static hdbscan* getScan(JNIEnv *env, jobject obj){
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env, jobject obj, jint minPoints){
 	jfieldID field = handleField(env, obj);
 
-	if(field != NULL){
+	if(field != NULL && checkMinPoints(env, minPoints)){
 		hdbscan *scan = new (std::nothrow) hdbscan((index_t)minPoints);
 
 		if(scan == NULL){
@@ -181,7 +192,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *env, jobject obj, jint newMinPts){
 	hdbscan *scan = getScan(env, obj);
-	if(scan == NULL){
+	if(scan == NULL || !checkMinPoints(env, newMinPts)){
 		return NULL;
 	}
 
-- 
2.43.0


From 26aac2144cfd3c0e00eefbaffe0ee8352464f2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:23 +0000
Subject: [PATCH 77/80] fix: release the incomplete results of a run that
 failed

---
 src/hdbscan.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c38a73c..2bffb72 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -229,6 +229,18 @@ void hdbscan_destroy(hdbscan* sc){
 
 }
 
+/**
+ * @brief Releases the incomplete results of a run that failed. The distances are kept for a re-run.
+ * 
+ * @param sc 
+ * @return int 
+ */
+static int hdbscan_abandon_run(hdbscan* sc){
+	hdbscan_minimal_clean(sc);
+
+	return HDBSCAN_ERROR;
+}
+
 /**
  * @brief 
  * 
@@ -248,7 +260,7 @@ int hdbscan_do_run(hdbscan* sc){
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
 	if(sc->hierarchy == NULL){
-		return HDBSCAN_ERROR;
+		return hdbscan_abandon_run(sc);
 	}
 
 	int err = hdbscan_construct_mst(sc);
@@ -260,7 +272,7 @@ int hdbscan_do_run(hdbscan* sc){
 		printf("FATAL: hdbscan_do_run - Could not construct the minimum spanning tree.\n");
 	#endif
 	
-		return HDBSCAN_ERROR;
+		return hdbscan_abandon_run(sc);
 	}
 
 	graph_quicksort_by_edge_weight(sc->mst);
@@ -269,15 +281,19 @@ int hdbscan_do_run(hdbscan* sc){
 	label_t pointLastClusters[sc->numPoints];
 
 	if(hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters) == HDBSCAN_ERROR){
-		return HDBSCAN_ERROR;
+		return hdbscan_abandon_run(sc);
 	}
 
 	int infiniteStability = hdbscan_propagate_tree(sc);
 	if(infiniteStability < 0 || hdbscan_find_prominent_clusters(sc, infiniteStability) == HDBSCAN_ERROR){
-		return HDBSCAN_ERROR;
+		return hdbscan_abandon_run(sc);
+	}
+
+	if(hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability) == HDBSCAN_ERROR){
+		return hdbscan_abandon_run(sc);
 	}
 
-	return hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);
+	return HDBSCAN_SUCCESS;
 }
 
 /**
-- 
2.43.0


From f6c65a3c4e7f03c1d24c2c1adc7bcecf5213459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 78/80] fix: keep the given list when a C++ sort runs out of
 memory

---
 src/hdbscan.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index ddc8cf4..7effb1b 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -240,6 +240,7 @@ void printStats(clustering_stats& stats){
 void sortBySimilarity(map<label_t, distance_values>& distanceMap, vector<label_t>& clusters, int32_t distanceType)
 {
 	vector<distance_t> distances;
+	vector<label_t> sorted = clusters; // the given list stays as it is when memory runs out
 
 	if(clusters.empty()){     /// If clusters had nothing in it, we will use the whole hash table
 
@@ -253,7 +254,7 @@ void sortBySimilarity(map<label_t, distance_values>& distanceMap, vector<label_t
 				conf = it->second.dr_confidence;
 			}
 
-			clusters.push_back(it->first);
+			sorted.push_back(it->first);
 			distances.push_back(conf);
 		}
 	} else { /// else we just need to get the lengths from the hash table
@@ -276,7 +277,8 @@ void sortBySimilarity(map<label_t, distance_values>& distanceMap, vector<label_t
 	}
 
 	// sort
-	quickSort(clusters, distances, 0, (index_t)(clusters.size()-1));
+	quickSort(sorted, distances, 0, (index_t)(sorted.size()-1));
+	clusters.swap(sorted);
 }
 
 /**
@@ -288,12 +290,13 @@ void sortBySimilarity(map<label_t, distance_values>& distanceMap, vector<label_t
 void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
 {
 	vector<distance_t> lengths;
+	vector<label_t> sorted = clusters; // the given list stays as it is when memory runs out
 
 	if(clusters.empty()){     /// If clusters had nothing in it, we will use the whole hash table
 
 		for(map_t::iterator it = clusterTable.begin(); it != clusterTable.end(); ++it)
 		{
-			clusters.push_back(it->first);
+			sorted.push_back(it->first);
 			lengths.push_back((index_t)(it->second.size()));
 		}
 	} else { /// else we just need to get the lengths from the hash table
@@ -310,7 +313,8 @@ void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
 		}
 	}
 	// sort
-	quickSort(clusters, lengths, 0, (index_t)(clusters.size()-1));
+	quickSort(sorted, lengths, 0, (index_t)(sorted.size()-1));
+	clusters.swap(sorted);
 }
 
 /**
-- 
2.43.0


From fc94977853b66d2fc6d636fdeced86dd6b5a4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:29 +0000
Subject: [PATCH 79/80] fix: the outlier scores of the C++ API were not
 computed

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 7effb1b..1cb81b1 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -82,7 +82,7 @@ void hdbscan::findProminentClusters(boolean infiniteStability){
 }
 
 void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* pointLastClusters, boolean infiniteStability){
-	// TODO
+	hdbscsan_calculate_outlier_scores(this, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 void hdbscan::clean(){
-- 
2.43.0


From 29370508298543d5808d996d6ac8aabc638ab210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:32 +0000
Subject: [PATCH 80/80] fix: a tree without self edges wrote past the end of
 its vertex list

---
 src/hdbscan.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 2bffb72..72f0f39 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -959,7 +959,8 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 	index_t selfEdgeCapacity = 0;
 	index_t size = sc->numPoints;
-	if (sc->selfEdges == TRUE){
+	boolean selfEdges = sc->selfEdges == TRUE || size < 2; // a single point has no other edge
+	if (selfEdges == TRUE){
 		selfEdgeCapacity = size;
 	}
 
@@ -1102,12 +1103,14 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 		//Attach the closest point found in this iteration to the tree:
 		attachedPoints[nearestMRDPoint] = TRUE;
-		others[numAttachedPoints] = numAttachedPoints;
+		if(numAttachedPoints < ssize){
+			others[numAttachedPoints] = numAttachedPoints;
+		}
 		currentPoint = (index_t)nearestMRDPoint;
 	}
 
 	//If necessary, attach self edges:
-	if (sc->selfEdges == TRUE) {
+	if (selfEdges == TRUE) {
 		index_t end = (index_t)(size * 2 - 1);
 		index_t begin = (index_t)(size - 1);
 		#ifdef _OPENMP
-- 
2.43.0

