From 4a8223a6d4810ff2ca1824d91075d89d217fc2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 01/53] fix: compare events by the full 64 bit id

The difference of two ids was truncated to int by the callers, memtable
pages were searched using rc == 1 only, and ids more than 2^63 apart were
ordered as signed. Return -1, 0 or 1.
---
 monotone/engine/io/comparator.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/io/comparator.h b/monotone/engine/io/comparator.h
index 53a83b0..fd59010 100644
--- a/monotone/engine/io/comparator.h
+++ b/monotone/engine/io/comparator.h
@@ -26,14 +26,13 @@ comparator_init(Comparator* self)
 	self->unused = 0;
 }
 
-hot static inline int64_t
+hot static inline int
 compare(Comparator* self, Event* a, Event* b)
 {
 	unused(self);
 	// compare by [id, key]
-	int64_t diff = a->id - b->id;
-	if (likely(diff != 0))
-		return diff;
+	if (likely(a->id != b->id))
+		return (a->id > b->id) ? 1 : -1;
 	if (a->key_size == 0 && b->key_size == 0)
 		return 0;
 	int size;
@@ -43,6 +42,6 @@ compare(Comparator* self, Event* a, Event* b)
 		size = b->key_size;
 	int rc = memcmp(a->data, b->data, size);
 	if (rc == 0)
-		return (int64_t)a->key_size - (int64_t)b->key_size;
-	return rc;
+		rc = a->key_size - b->key_size;
+	return (rc > 0) - (rc < 0);
 }
-- 
2.43.0


From b571245e5e345d879b77d8f1d15e88baa0826aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:23 +0000
Subject: [PATCH 02/53] fix: event size counts the key twice

data_size already includes the key: copying and writing an event with a
key read past the end of it, and log records did not match their checksum.
---
 monotone/engine/io/event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 9f3435a..8fbcb48 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -49,7 +49,7 @@ event_is_delete(Event* self)
 always_inline hot static inline int
 event_size(Event* self)
 {
-	return sizeof(Event) + self->key_size + self->data_size;
+	return sizeof(Event) + self->data_size;
 }
 
 always_inline hot static inline uint8_t*
-- 
2.43.0


From 090039cc8205266d28758d400b9b436c12d4880b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 03/53] fix: zstd output buffer is too small for empty or
 incompressible data

A refresh leaving no events, or with data which does not compress, stopped
on an assertion. Reserve the compression bound.
---
 monotone/runtime/lib/compression_zstd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index 9c799a5..33844fb 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -61,7 +61,7 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	size_t size = 0;
 	for (int i = 0; i < argc; i++)
 		size += buf_size(argv[i]);
-	buf_reserve(buf, size);
+	buf_reserve(buf, ZSTD_compressBound(size));
 
 	ZSTD_outBuffer out;
 	out.dst  = buf->position;
-- 
2.43.0


From 9712ebe330ef97fc4a0604ca3170b46c7bba39d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 04/53] fix: memtable iterator stops in the gap between two
 pages

Seeking a key which is greater than the last event of its page and less than
the first event of the next one gave an empty iterator.
---
 monotone/engine/io/memtable_iterator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 64a9581..57a7a2d 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -40,9 +40,14 @@ memtable_iterator_open(MemtableIterator* self,
 	bool match = memtable_seek(memtable, key, &self->page, &self->page_pos);
 	if (self->page_pos >= self->page->events_count)
 	{
+		// key is greater than all events on the page, continue
+		// with the next one
+		auto next = rbtree_next(&memtable->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, MemtablePage, node);
 	}
 	self->current = self->page->events[self->page_pos];
 
-- 
2.43.0


From a8fdda0014346bc46ea36e4fcd43c75bb7016509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:48 +0000
Subject: [PATCH 05/53] fix: partition iterator stops when the key is after the
 last event of its region

Regions are searched by id only: the matching region can hold only lesser
keys of the same id. Continue with the next region.
---
 monotone/engine/io/part_iterator.h | 40 +++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/monotone/engine/io/part_iterator.h b/monotone/engine/io/part_iterator.h
index 3bc134e..a0440e3 100644
--- a/monotone/engine/io/part_iterator.h
+++ b/monotone/engine/io/part_iterator.h
@@ -38,6 +38,24 @@ part_iterator_open_region(PartIterator* self, Event* event)
 	                             event);
 }
 
+hot static inline void
+part_iterator_seek_region(PartIterator* self, Event* event)
+{
+	for (;;)
+	{
+		if (likely(region_iterator_has(&self->region_iterator)))
+			break;
+
+		// read next region
+		index_iterator_next(&self->index_iterator);
+		self->current = index_iterator_at(&self->index_iterator);
+		if (unlikely(self->current == NULL))
+			break;
+
+		part_iterator_open_region(self, event);
+	}
+}
+
 hot static inline bool
 part_iterator_open(PartIterator* self, Part* part, Event* event)
 {
@@ -53,7 +71,12 @@ part_iterator_open(PartIterator* self, Part* part, Event* event)
 		return false;
 
 	reader_open(&self->reader, part);
-	return part_iterator_open_region(self, event);
+	bool match = part_iterator_open_region(self, event);
+
+	// all events of the region are less than the key, continue
+	// with the next region
+	part_iterator_seek_region(self, event);
+	return match;
 }
 
 hot static inline bool
@@ -76,20 +99,7 @@ part_iterator_next(PartIterator* self)
 
 	// iterate over current region
 	region_iterator_next(&self->region_iterator);
-
-	for (;;)
-	{
-		if (likely(region_iterator_has(&self->region_iterator)))
-			break;
-
-		// read next region
-		index_iterator_next(&self->index_iterator);
-		self->current = index_iterator_at(&self->index_iterator);
-		if (unlikely(self->current == NULL))
-			break;
-
-		part_iterator_open_region(self, NULL);
-	}
+	part_iterator_seek_region(self, NULL);
 }
 
 static inline void
-- 
2.43.0


From fc9c365cafa18a530af449af5291c0b177f441fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:09 +0000
Subject: [PATCH 06/53] fix: memtable iterators lose their position when the
 memtable changes

An insert at the position of an iterator was handled as a replace, an insert
which splits the page compared positions of two different pages, and a
removal did not update iterators at all: open cursors repeated or skipped
events.
---
 monotone/engine/io/memtable.c          | 45 ++++++++++++++++++++---
 monotone/engine/io/memtable_iterator.h | 51 ++++++++++++++++++--------
 2 files changed, 75 insertions(+), 21 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index f904dbe..e2e5256 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -183,13 +183,42 @@ range_search(Ref self, RangeTree* tree, Ref key, bool* match)
 #endif
 
 hot static inline void
-memtable_sync(Memtable* self, MemtablePage* page, MemtablePage* split, int pos)
+memtable_sync_replace(Memtable* self, MemtablePage* page, int pos)
 {
-	// sync iterators
 	list_foreach(&self->iterators)
 	{
 		auto it = list_at(MemtableIterator, link);
-		memtable_iterator_sync(it, page, split, pos);
+		memtable_iterator_sync_replace(it, page, pos);
+	}
+}
+
+static inline void
+memtable_sync_split(Memtable* self, MemtablePage* page, MemtablePage* split)
+{
+	list_foreach(&self->iterators)
+	{
+		auto it = list_at(MemtableIterator, link);
+		memtable_iterator_sync_split(it, page, split);
+	}
+}
+
+hot static inline void
+memtable_sync_insert(Memtable* self, MemtablePage* page, int pos)
+{
+	list_foreach(&self->iterators)
+	{
+		auto it = list_at(MemtableIterator, link);
+		memtable_iterator_sync_insert(it, page, pos);
+	}
+}
+
+static inline void
+memtable_sync_remove(Memtable* self, MemtablePage* page, int pos)
+{
+	list_foreach(&self->iterators)
+	{
+		auto it = list_at(MemtableIterator, link);
+		memtable_iterator_sync_remove(it, page, pos);
 	}
 }
 
@@ -209,7 +238,7 @@ memtable_insert(Memtable*      self,
 
 		// update iterators
 		if (self->iterators_count > 0)
-			memtable_sync(self, page, NULL, pos);
+			memtable_sync_replace(self, page, pos);
 
 		return prev;
 	}
@@ -227,6 +256,8 @@ memtable_insert(Memtable*      self,
 		r->events_count = self->size_page - self->size_split;
 		memmove(&r->events[0], &l->events[self->size_split],
 		        sizeof(Event*) * r->events_count);
+		if (self->iterators_count > 0)
+			memtable_sync_split(self, l, r);
 		if (pos >= l->events_count)
 		{
 			ref = r;
@@ -244,7 +275,7 @@ memtable_insert(Memtable*      self,
 
 	// update iterators
 	if (self->iterators_count > 0)
-		memtable_sync(self, l, r, pos);
+		memtable_sync_insert(self, ref, pos);
 
 	*page_split = r;
 	return NULL;
@@ -294,6 +325,10 @@ memtable_unset(Memtable* self, Event* event)
 	if (! match)
 		return;
 
+	// update iterators
+	if (self->iterators_count > 0)
+		memtable_sync_remove(self, page, pos);
+
 	// remove event from the page
 	page->events[pos] = NULL;
 	page->events_count--;
diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 57a7a2d..708d1b4 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -136,35 +136,54 @@ memtable_iterator_init(MemtableIterator* self)
 }
 
 static inline void
-memtable_iterator_sync(MemtableIterator* self,
-                       MemtablePage*     page,
-                       MemtablePage*     page_split,
-                       int               pos)
+memtable_iterator_sync_replace(MemtableIterator* self, MemtablePage* page, int pos)
 {
 	if (self->page != page || !self->current)
 		return;
 
-	// replace
+	// update current page event pointer on replace
 	if (self->page_pos == pos)
-	{
-		// update current page event pointer on replace
 		self->current = self->page->events[self->page_pos];
+}
+
+static inline void
+memtable_iterator_sync_split(MemtableIterator* self,
+                             MemtablePage*     page,
+                             MemtablePage*     page_split)
+{
+	if (self->page != page || !self->current)
 		return;
-	}
 
-	// insert
-	if (page_split)
+	// follow current event to the new page
+	if (self->page_pos >= page->events_count)
 	{
-		if (self->page_pos >= page->events_count)
-		{
-			self->page = page_split;
-			self->page_pos = self->page_pos - page->events_count;
-		}
+		self->page = page_split;
+		self->page_pos = self->page_pos - page->events_count;
 	}
+}
+
+static inline void
+memtable_iterator_sync_insert(MemtableIterator* self, MemtablePage* page, int pos)
+{
+	if (self->page != page || !self->current)
+		return;
 
 	// move position, if key was inserted before it
 	if (pos <= self->page_pos)
 		self->page_pos++;
+}
 
-	self->current = self->page->events[self->page_pos];
+static inline void
+memtable_iterator_sync_remove(MemtableIterator* self, MemtablePage* page, int pos)
+{
+	if (self->page != page || !self->current)
+		return;
+
+	// current event is going to be removed, continue with the next one
+	if (self->page_pos == pos)
+		memtable_iterator_next(self);
+
+	// move position, if key is removed before it
+	if (self->page == page && self->page_pos > pos)
+		self->page_pos--;
 }
-- 
2.43.0


From 358572e5d7a6376bceb397060db8cdb42167bd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 07/53] fix: write crashes when memory for the event cannot be
 allocated

An event larger than a memory page was dereferenced as NULL, and aborting a
write on the memory limit tried to remove the event which was not created.
---
 monotone/engine/engine/write.c | 1 +
 monotone/engine/io/memtable.c  | 3 ++-
 monotone/runtime/lib/heap.h    | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index dad5893..ebf63e3 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -34,6 +34,7 @@ engine_rollback(Engine* self, Log* log)
 			if (pos->prev)
 				memtable_set(ref->part->memtable, pos->prev);
 			else
+			if (pos->event)
 				memtable_unset(ref->part->memtable, pos->event);
 			engine_unlock(self, ref, LOCK_ACCESS);
 		}
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index e2e5256..1eb8064 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -314,7 +314,8 @@ memtable_set(Memtable* self, Event* event)
 void
 memtable_unset(Memtable* self, Event* event)
 {
-	assert(self->count_pages > 0);
+	if (unlikely(self->count_pages == 0))
+		return;
 
 	// search page
 	auto page = memtable_search_page(self, event);
diff --git a/monotone/runtime/lib/heap.h b/monotone/runtime/lib/heap.h
index 7f0434c..460c721 100644
--- a/monotone/runtime/lib/heap.h
+++ b/monotone/runtime/lib/heap.h
@@ -57,7 +57,7 @@ hot static inline void*
 heap_allocate(Heap* self, int size)
 {
 	if (unlikely(size > self->memory_mgr->page_size))
-		return NULL;
+		error("heap: allocation size exceeds the memory page size");
 	Page* page;
 	if (unlikely(self->list == NULL ||
 	             (self->memory_mgr->page_size - self->list_tail->used) < size))
-- 
2.43.0


From 0ab0899019765ca208ce60abb455dd85443e0f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:18 +0000
Subject: [PATCH 08/53] fix: storage size and events are not reduced when a
 partition is dropped

---
 monotone/engine/engine/op.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2d3e9ab..9d84e80 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -193,6 +193,7 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	mutex_unlock(&self->lock);
 
 	// delete partition file on storage or cloud
+	bool has_file = part->state != ID_NONE;
 	Exception e;
 	if (enter(&e))
 	{
@@ -214,11 +215,12 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 			}
 		}
 
-		if (part->state == ID_NONE)
+		if (has_file && part->state == ID_NONE)
 		{
 			// unset storage metrics before droping the reference
 			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
-			storage_remove_metrics(storage, part);
+			storage->size   -= part->index.size_regions;
+			storage->events -= part->index.events;
 			index_init(&part->index);
 			buf_reset(&part->index_data);
 		}
-- 
2.43.0


From 03d4055d3212c6a76ff51acfffd07fe6790a2ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 09/53] fix: nested partition lock is released by the first
 unlock

---
 monotone/engine/engine/lockage.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 65a56d1..4c632ed 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -67,7 +67,7 @@ lockage_lock(Lockage* self, LockType type)
 
 	// nested call
 	pthread_t pthread_id = pthread_self();
-	if (pthread_equal(pthread_id, lock->locker))
+	if (lock->locker_refs > 0 && pthread_equal(pthread_id, lock->locker))
 	{
 		lock->locker_refs++;
 		return;
@@ -76,10 +76,10 @@ lockage_lock(Lockage* self, LockType type)
 	// wait for lock
 	for (;;)
 	{
-		if (lock->locker == 0)
+		if (lock->locker_refs == 0)
 		{
 			lock->locker = pthread_id;
-			lock->locker_refs = 0;
+			lock->locker_refs = 1;
 			break;
 		}
 		lock->pending++;
-- 
2.43.0


From 836e133b8abec12f1e342d358442f00e53b1cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:59 +0000
Subject: [PATCH 10/53] fix: rebalance uses the target storage of a skipped
 tier

---
 monotone/engine/engine/op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 9d84e80..997c63b 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -564,7 +564,12 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
 			if (part->refresh)
+			{
+				// next tier storage is not used
+				str_free(storage);
+				str_init(storage);
 				continue;
+			}
 			part->refresh = true;
 
 			*min = part->id.min;
-- 
2.43.0


From 4fb4375591002c8c9925d281e5234ffd4c28d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:02 +0000
Subject: [PATCH 11/53] fix: serial ids restart from zero when the last
 partition is empty

---
 monotone/engine/engine/engine.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index e459767..73d9e87 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -78,25 +78,28 @@ engine_close(Engine* self)
 void
 engine_set_serial(Engine* self)
 {
-	auto slice = mapping_max(&self->mapping);
-	if (! slice)
-		return;
-	auto ref  = ref_of(slice);
-	auto part = ref->part;
-
+	// find last partition which has events
 	bool     serial_set = false;
 	uint64_t serial = 0;
-	if (part->state != ID_NONE && part->index.regions > 0)
+	auto slice = mapping_max(&self->mapping);
+	while (slice && !serial_set)
 	{
-		serial = index_max(&part->index, &part->index_data);
-		serial_set = true;
-	}
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
+		if (part->state != ID_NONE && part->index.regions > 0)
+		{
+			serial = index_max(&part->index, &part->index_data);
+			serial_set = true;
+		}
 
-	auto max = memtable_max(part->memtable);
-	if (max && max->id >= serial)
-	{
-		serial = max->id;
-		serial_set = true;
+		auto max = memtable_max(part->memtable);
+		if (max && max->id >= serial)
+		{
+			serial = max->id;
+			serial_set = true;
+		}
+
+		slice = mapping_prev(&self->mapping, slice);
 	}
 
 	if (serial_set)
-- 
2.43.0


From 4134fedc92f2bce5c553c966350ae67565edf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 12/53] fix: id ranges wrap around at the end of the id space

---
 monotone/engine/engine/engine.c        |  2 ++
 monotone/engine/engine/engine_cursor.h |  5 ++--
 monotone/engine/engine/op.c            | 32 ++++++++++++++++++++------
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index 73d9e87..c3008d6 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -145,6 +145,8 @@ engine_lock(Engine* self, uint64_t id, LockType lock,
 			// interval is inclusive
 			auto min = config_interval_of(id);
 			auto max = (min + config_interval()) - 1;
+			if (unlikely(max < min))
+				max = UINT64_MAX;
 			engine_fill_nolock(self, min, max);
 
 			// retry search
diff --git a/monotone/engine/engine/engine_cursor.h b/monotone/engine/engine/engine_cursor.h
index 8907440..3b2b38f 100644
--- a/monotone/engine/engine/engine_cursor.h
+++ b/monotone/engine/engine/engine_cursor.h
@@ -98,7 +98,7 @@ engine_cursor_next(EngineCursor* self)
 	if (likely(part_cursor_has(&self->cursor)))
 		return;
 
-	uint64_t next_interval = self->ref->slice.max + 1;
+	uint64_t max = self->ref->slice.max;
 
 	// close previous partition
 	part_cursor_close(&self->cursor);
@@ -106,7 +106,8 @@ engine_cursor_next(EngineCursor* self)
 	self->ref = NULL;
 
 	// open next partition
-	engine_cursor_open_part(self, next_interval, NULL);
+	if (likely(max < UINT64_MAX))
+		engine_cursor_open_part(self, max + 1, NULL);
 }
 
 hot static inline void
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 997c63b..22573e6 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -102,10 +102,16 @@ engine_fill_nolock(Engine* self, uint64_t min, uint64_t max)
 					gap.max = slice->min - 1;
 				buf_write(&gaps, &gap, sizeof(gap));
 
+				// end of range
+				if (slice->max == UINT64_MAX)
+					break;
 				min = slice->max + 1;
 			} else
 			if (slice_in(slice, min))
 			{
+				// end of range
+				if (slice->max == UINT64_MAX)
+					break;
 				min = slice->max + 1;
 			}
 
@@ -143,8 +149,12 @@ engine_fill(Engine* self, uint64_t min, uint64_t max)
 }
 
 static inline bool
-engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
+engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t* max)
 {
+	// end of range
+	if (*min > *max)
+		return false;
+
 	// get next reference >= min and <= max
 	auto ref = engine_lock(self, *min, LOCK_ACCESS, true, false);
 	if (ref == NULL)
@@ -152,10 +162,18 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	uint64_t ref_min = ref->slice.min;
 	uint64_t ref_max = ref->slice.max;
 	engine_unlock(self, ref, LOCK_ACCESS);
-	if (ref_min >= *min && ref_max <= max)
+	if (ref_min >= *min && ref_max <= *max)
 	{
 		*min = ref_min;
-		*min_next = ref_max + 1;
+		if (likely(ref_max < UINT64_MAX))
+		{
+			*min_next = ref_max + 1;
+		} else
+		{
+			// last possible partition, end the range
+			*min_next = UINT64_MAX;
+			*max = 0;
+		}
 		return true;
 	}
 	return false;
@@ -320,7 +338,7 @@ void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_drop(self, min, true, mask);
 }
 
@@ -389,7 +407,7 @@ void
 engine_download_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_download(self, min, true, if_cloud);
 }
 
@@ -459,7 +477,7 @@ void
 engine_upload_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_upload(self, min, true, if_cloud);
 }
 
@@ -489,7 +507,7 @@ engine_refresh_range(Engine* self, Refresh* refresh, uint64_t min, uint64_t max,
                      Str* storage)
 {
 	uint64_t next;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_refresh(self, refresh, min, storage, true);
 }
 
-- 
2.43.0


From 5d9d0e3c660296a5b2fa2a8249ee4fa214801df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:18 +0000
Subject: [PATCH 13/53] fix: failed or interrupted log writes leave an
 incomplete record inside the log

---
 monotone/engine/wal/wal.c        | 69 ++++++++++++++++++++++++++++++--
 monotone/engine/wal/wal.h        |  2 +
 monotone/engine/wal/wal_cursor.c |  6 +++
 monotone/engine/wal/wal_file.h   | 15 ++++++-
 monotone/main/main/main.c        |  4 ++
 5 files changed, 90 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 80a32bf..d8b97aa 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -23,7 +23,8 @@
 void
 wal_init(Wal* self)
 {
-	self->current = NULL;
+	self->current      = NULL;
+	self->current_torn = false;
 	mutex_init(&self->lock);
 	wal_id_init(&self->list);
 }
@@ -42,6 +43,33 @@ wal_free(Wal* self)
 	mutex_free(&self->lock);
 }
 
+static inline void
+wal_repair(Wal* self)
+{
+	// remove incomplete record left by a failed write
+	if (likely(! self->current_torn))
+		return;
+	auto file = &self->current->file;
+	file_truncate(file, file->size);
+	self->current_torn = false;
+}
+
+static inline void
+wal_repair_to(Wal* self, uint64_t size)
+{
+	// write has failed, restore previous end of file
+	self->current->file.size = size;
+	self->current_torn = true;
+
+	// on error, retry before the next write
+	Exception e;
+	if (enter(&e)) {
+		wal_repair(self);
+	}
+	if (leave(&e))
+	{ }
+}
+
 static inline bool
 wal_rotate_ready(Wal* self, uint64_t wm)
 {
@@ -65,6 +93,7 @@ wal_rotate(Wal* self, uint64_t wm)
 	Exception e;
 	if (enter(&e))
 	{
+		wal_repair(self);
 		file = wal_file_allocate(next_lsn);
 		wal_file_create(file);
 	}
@@ -195,6 +224,18 @@ wal_open(Wal* self)
 	}
 }
 
+void
+wal_truncate(Wal* self, uint64_t id, uint64_t offset)
+{
+	// remove incomplete record from the end of the last file
+	auto current = self->current;
+	if (!current || current->id != id || current->file.size <= offset)
+		return;
+	log("wal: file '%s' incomplete record at offset %" PRIu64 " removed",
+	    str_of(&current->file.path), offset);
+	file_truncate(&current->file, offset);
+}
+
 hot bool
 wal_write(Wal* self, Log* log)
 {
@@ -206,8 +247,18 @@ wal_write(Wal* self, Log* log)
 	log_write_seal(&log->write);
 
 	// write wal file
-	wal_file_writev(self->current, iov_pointer(&log->iov),
-	                log->iov.iov_count);
+	wal_repair(self);
+	auto size = self->current->file.size;
+	Exception e;
+	if (enter(&e)) {
+		wal_file_writev(self->current, iov_pointer(&log->iov),
+		                log->iov.iov_count);
+	}
+	if (leave(&e))
+	{
+		wal_repair_to(self, size);
+		rethrow();
+	}
 
 	// set lsn
 	config_lsn_set(log->write.lsn);
@@ -228,7 +279,17 @@ wal_write_op(Wal* self, LogWrite* write)
 	log_write_seal(write);
 
 	// write wal file
-	wal_file_write(self->current, write, write->size);
+	wal_repair(self);
+	auto size = self->current->file.size;
+	Exception e;
+	if (enter(&e)) {
+		wal_file_write(self->current, write, write->size);
+	}
+	if (leave(&e))
+	{
+		wal_repair_to(self, size);
+		rethrow();
+	}
 
 	// set lsn
 	config_lsn_set(write->lsn);
diff --git a/monotone/engine/wal/wal.h b/monotone/engine/wal/wal.h
index 2a7e249..a5d0d79 100644
--- a/monotone/engine/wal/wal.h
+++ b/monotone/engine/wal/wal.h
@@ -20,6 +20,7 @@ struct Wal
 	Mutex    lock;
 	WalId    list;
 	WalFile* current;
+	bool     current_torn;
 };
 
 void wal_init(Wal*);
@@ -27,6 +28,7 @@ void wal_free(Wal*);
 void wal_open(Wal*);
 void wal_rotate(Wal*, uint64_t);
 void wal_gc(Wal*, uint64_t);
+void wal_truncate(Wal*, uint64_t, uint64_t);
 bool wal_write(Wal*, Log*);
 bool wal_write_op(Wal*, LogWrite*);
 void wal_show(Wal*, Buf*);
diff --git a/monotone/engine/wal/wal_cursor.c b/monotone/engine/wal/wal_cursor.c
index c55cfb7..aaf33c2 100644
--- a/monotone/engine/wal/wal_cursor.c
+++ b/monotone/engine/wal/wal_cursor.c
@@ -103,6 +103,12 @@ wal_cursor_next(WalCursor* self)
 		if (id == UINT64_MAX)
 			break;
 
+		// only last file can have incomplete record at the end
+		if (unlikely(self->file_offset != file->file.size))
+			error("wal: file '%s' invalid record at offset %" PRIu64,
+			      str_of(&file->file.path),
+			      self->file_offset);
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index f34ad1f..5f2c664 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -79,7 +79,7 @@ wal_file_writev(WalFile* self, struct iovec* iov, int iovc)
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -98,6 +98,16 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	int start = buf_size(buf);
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((LogWrite*)(buf->start + start))->size;
+	if (unlikely(size < size_header))
+	{
+		// space which was allocated but never written
+		static const LogWrite zero;
+		if (! memcmp(buf->start + start, &zero, size_header))
+			return false;
+		error("wal: file '%s' invalid record at offset %" PRIu64,
+		      str_of(&self->file.path),
+		      offset);
+	}
 
 	// check for eof
 	if (wal_file_eof(self, offset, size))
@@ -106,7 +116,8 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	// read body
 	uint32_t size_data;
 	size_data = size - size_header;
-	file_pread_buf(&self->file, buf, size_data, offset + size_header);
+	if (likely(size_data > 0))
+		file_pread_buf(&self->file, buf, size_data, offset + size_header);
 
 	// check crc
 	if (var_int_of(&config()->wal_crc))
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 617b022..e6f0967 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -204,6 +204,10 @@ main_replay(Main* self)
 
 		total += write->count;
 	}
+
+	// remove incomplete record left by a crash, before the next write
+	if (cursor.file)
+		wal_truncate(&self->wal, cursor.file->id, cursor.file_offset);
 	log("wal: %.1f million records processed",
 	    total / 1000000.0);
 }
-- 
2.43.0


From 62c035936f4564516749fa66f776f359a99ba032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 14/53] fix: log positions are reused after restart with an
 empty log file

---
 monotone/engine/wal/wal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index d8b97aa..0c6067a 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -218,6 +218,9 @@ wal_open(Wal* self)
 		self->current = wal_file_allocate(last);
 		wal_file_open(self->current);
 		file_seek_to_end(&self->current->file);
+
+		// last file has records >= its id, the log can be empty
+		config_lsn_follow(last - 1);
 	} else
 	{
 		wal_rotate(self, 0);
-- 
2.43.0


From 4e979a659bd3b0ab5a9e4e1226dfad987df16f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:27 +0000
Subject: [PATCH 15/53] fix: log garbage collection can remove records of
 writes being commited

---
 monotone/engine/engine/op.c    |  5 ++++-
 monotone/engine/engine/write.c | 17 +++++++++++++++++
 monotone/engine/io/memtable.c  |  8 +++++++-
 monotone/engine/io/memtable.h  |  1 +
 4 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 22573e6..11d5000 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -651,7 +651,10 @@ engine_gc(Engine* self)
 	guard(control_unlock_guard, NULL);
 
 	// get minimum lsn currently used by any memtable
-	uint64_t lsn_min = UINT64_MAX;
+	//
+	// writes can be added to the log before they become visible
+	// here, but their lsn will be always greater then current
+	uint64_t lsn_min = config_lsn() + 1;
 	mutex_lock(&self->lock);
 
 	auto slice = mapping_min(&self->mapping);
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index ebf63e3..a6dafcf 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -72,6 +72,20 @@ engine_commit(Engine* self, Log* log)
 	log_reset(log);
 }
 
+hot static inline void
+engine_write_reserve(Log* log)
+{
+	// lsn of the write is not known yet, but it cannot be less
+	uint64_t lsn = config_lsn() + 1;
+	auto pos = log_first(log);
+	auto end = log_end(log);
+	for (; pos < end; pos++)
+	{
+		Ref* ref = pos->ref;
+		memtable_reserve(ref->part->memtable, lsn);
+	}
+}
+
 hot void
 engine_write(Engine* self, EventArg* events, int count)
 {
@@ -115,6 +129,9 @@ engine_write(Engine* self, EventArg* events, int count)
 			// wal write error test case
 			error_injection(error_wal);
 
+			// keep the log until the write is commited
+			engine_write_reserve(&log);
+
 			auto rotate_ready = wal_write(self->wal, &log);
 
 			// schedule wal rotation
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 1eb8064..43f6197 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -382,10 +382,16 @@ memtable_seek(Memtable* self, Event* key, MemtablePage** page, int* pos)
 }
 
 void
-memtable_follow(Memtable* self, uint64_t lsn)
+memtable_reserve(Memtable* self, uint64_t lsn)
 {
 	if (lsn < atomic_u64_of(&self->lsn_min))
 		atomic_u64_set(&self->lsn_min, lsn);
+}
+
+void
+memtable_follow(Memtable* self, uint64_t lsn)
+{
+	memtable_reserve(self, lsn);
 
 	if (lsn > atomic_u64_of(&self->lsn_max))
 		atomic_u64_set(&self->lsn_max, lsn);
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 1a66d06..1271484 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -45,4 +45,5 @@ Event* memtable_set(Memtable*, Event*);
 void   memtable_unset(Memtable*, Event*);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
+void   memtable_reserve(Memtable*, uint64_t);
 void   memtable_follow(Memtable*, uint64_t);
-- 
2.43.0


From e7fb320b216d8496f507fad0c9bfb79be1144920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:03 +0000
Subject: [PATCH 16/53] fix: partition files are created on top of the files
 left by failed operations

---
 monotone/cloud/cloud/mock.c | 5 +++++
 monotone/engine/io/part.c   | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 2286a67..aca6fe7 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -135,6 +135,11 @@ mock_upload(Cloud* self, Source* source, Id* id)
 	// crash case 5
 	error_injection(error_upload);
 
+	// in case previous attempt failed without crash or the
+	// partition was removed partially
+	if (fs_exists("%s", path_to))
+		fs_unlink("%s", path_to);
+
 	// create mock file
 	File file;
 	file_init(&file);
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 8e673a5..0c80eec 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -90,6 +90,10 @@ part_create(Part* self, int state)
 	switch (state) {
 	case ID_INCOMPLETE:
 	{
+		// previous attempt could fail without crash, its file
+		// can be still in use
+		part_delete(self, state);
+
 		id_path(&self->id, self->source, state, path);
 		file_create(&self->file, path);
 		break;
-- 
2.43.0


From adc0f8a4d43f2b3b0a460c8ebb7cd931b4edc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:08 +0000
Subject: [PATCH 17/53] fix: mock cloud does not sync downloaded and uploaded
 files

---
 monotone/cloud/cloud/mock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index aca6fe7..eccf948 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -106,6 +106,10 @@ mock_download(Cloud* self, Source* source, Id* id)
 	// crash case 4
 	error_injection(error_download);
 
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
+
 	// rename
 	id_path(id, source, ID_INCOMPLETE, path_from);
 	id_path(id, source, ID, path_to);
@@ -146,6 +150,10 @@ mock_upload(Cloud* self, Source* source, Id* id)
 	guard(file_close, &file);
 	file_create(&file, path_to);
 	file_write_buf(&file, &buf);
+
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
 }
 
 static void
-- 
2.43.0


From 1bbc83c0e3607026ef78ffd0d170190157eee30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 18/53] fix: recovery fails when files of several interrupted
 operations are present

---
 monotone/engine/engine/engine_recover.c | 73 +++++++++++++++----------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 5a6f1b4..c5ad437 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -112,6 +112,42 @@ engine_recover_storage(Engine* self, Storage* storage)
 	}
 }
 
+static void
+engine_recover_cleanup(Engine* self, Storage* storage)
+{
+	unused(self);
+	list_foreach_safe(&storage->list)
+	{
+		auto part = list_at(Part, link);
+
+		// crash case 1 and 4
+		//
+		// remove files left by refresh or download (there is no complete
+		// state for download, cloud file not removed after download)
+		if (part_has(part, ID_INCOMPLETE))
+		{
+			part_delete(part, ID_INCOMPLETE);
+			part_unset(part, ID_INCOMPLETE);
+		}
+
+		// crash case 5
+		//
+		// remove file left by upload
+		if (part_has(part, ID_CLOUD_INCOMPLETE))
+		{
+			part_delete(part, ID_CLOUD_INCOMPLETE);
+			part_unset(part, ID_CLOUD_INCOMPLETE);
+		}
+
+		// no parent
+		if (part->state == ID_NONE)
+		{
+			storage_remove(storage, part);
+			part_free(part);
+		}
+	}
+}
+
 static void
 engine_recover_validate(Engine* self, Storage* storage)
 {
@@ -128,19 +164,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 
 		// crash recovery cases (see refresh)
 
-		// crash case 1 (without parent)
-		case ID_INCOMPLETE:
-			storage_remove(storage, part);
-			part_delete(part, ID_INCOMPLETE);
-			part_free(part);
-			break;
-
-		// crash case 1 (with parent)
-		case ID | ID_INCOMPLETE:
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
 		// crash case 2
 		case ID | ID_COMPLETE:
 			part_delete(part, ID_COMPLETE);
@@ -174,23 +197,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 			break;
 		}
 
-		// crash case 4
-		case ID_CLOUD | ID_INCOMPLETE:
-			// crash during download
-			//
-			// there is no complete state for download, cloud file not
-			// removed after download (only prior to refresh)
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
-		// crash case 5
-		case ID | ID_CLOUD_INCOMPLETE:
-			// crash during upload
-			part_delete(part, ID_CLOUD_INCOMPLETE);
-			part_unset(part, ID_CLOUD_INCOMPLETE);
-			break;
-
 		default:
 			error("partition '%" PRIu64"' has unexpected state: %d",
 			      part->id.min, part->state);
@@ -211,6 +217,13 @@ engine_recover(Engine* self)
 		engine_recover_storage(self, storage);
 	}
 
+	// remove incomplete files
+	list_foreach(&storage_mgr->list)
+	{
+		auto storage = list_at(Storage, link);
+		engine_recover_cleanup(self, storage);
+	}
+
 	// validate partitions per storage
 	list_foreach(&storage_mgr->list)
 	{
-- 
2.43.0


From 03e4e20fee0054aaa6902ae1c725765d22cf959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 19/53] fix: failed refresh loses the order of events and
 leaves files of two partitions

---
 monotone/engine/engine/op.c           |  30 +++++-
 monotone/engine/engine/refresh.c      | 140 +++++++++++++++++---------
 monotone/engine/engine/refresh.h      |   2 +
 monotone/engine/io/part.c             |   4 +
 monotone/engine/io/part.h             |   2 +
 monotone/engine/storage/storage.h     |   2 +
 monotone/engine/storage/storage_mgr.c |   4 +-
 7 files changed, 134 insertions(+), 50 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 11d5000..2e36782 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -179,13 +179,33 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t* max)
 	return false;
 }
 
+static Ref*
+engine_lock_service(Engine* self, uint64_t min)
+{
+	auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+	if (unlikely(! ref))
+		return NULL;
+
+	// complete previous refresh, if necessary
+	Exception e;
+	if (enter(&e)) {
+		refresh_complete(self, ref->part);
+	}
+	if (leave(&e))
+	{
+		engine_unlock(self, ref, LOCK_SERVICE);
+		rethrow();
+	}
+	return ref;
+}
+
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
                  bool    cloud_drop_local,
                  int     mask)
 {
 	// find the original partition
-	auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+	auto ref = engine_lock_service(self, min);
 	if (unlikely(! ref))
 	{
 		if (! if_exists)
@@ -348,7 +368,7 @@ engine_download(Engine* self, uint64_t min,
                 bool    if_cloud)
 {
 	// find the original partition
-	auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+	auto ref = engine_lock_service(self, min);
 	if (unlikely(! ref))
 	{
 		if (! if_exists)
@@ -417,7 +437,7 @@ engine_upload(Engine* self, uint64_t min,
               bool    if_cloud)
 {
 	// find the original partition
-	auto ref = engine_lock(self, min, LOCK_SERVICE, false, false);
+	auto ref = engine_lock_service(self, min);
 	if (unlikely(! ref))
 	{
 		if (! if_exists)
@@ -670,6 +690,10 @@ engine_gc(Engine* self)
 		if (min_b < lsn_min)
 			lsn_min = min_b;
 
+		uint64_t min_origin = atomic_u64_of(&ref->part->origin_lsn);
+		if (min_origin < lsn_min)
+			lsn_min = min_origin;
+
 		slice = mapping_next(&self->mapping, slice);
 	}
 
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index db6e5c0..c62ef3c 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -30,6 +30,7 @@ refresh_init(Refresh* self, Engine* engine)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->leftover       = false;
 	self->engine         = engine;
 	merger_init(&self->merger);
 }
@@ -49,45 +50,36 @@ refresh_reset(Refresh* self)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->leftover       = false;
 	merger_reset(&self->merger);
 }
 
 static bool
-refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+refresh_begin(Refresh* self, Ref* ref, Str* storage)
 {
 	auto engine = self->engine;
+	auto part   = ref->part;
 
-	// find the original partition
-	auto ref = engine_lock(engine, min, LOCK_SERVICE, false, false);
-	if (unlikely(! ref))
-	{
-		if (! if_exists)
-			error("refresh: partition '%" PRIu64 "' not found", min);
-		return false;
-	}
+	// complete previous refresh, if necessary
+	refresh_complete(engine, part);
 
 	// ensure partition is offloaded
-	if (part_has(ref->part, ID_CLOUD))
-	{
-		engine_unlock(engine, ref, LOCK_SERVICE);
-		error("refresh: partition '%" PRIu64 "' must be dropped from the cloud first", min);
-	}
+	if (part_has(part, ID_CLOUD))
+		error("refresh: partition '%" PRIu64 "' must be dropped from the cloud first",
+		      part->id.min);
 
 	// match storage, if provided by request
 	if (storage)
 	{
 		self->storage = storage_mgr_find(&engine->storage_mgr, storage);
 		if (unlikely(! self->storage))
-		{
-			engine_unlock(engine, ref, LOCK_SERVICE);
 			error("refresh: storage '%.*s' not found", str_size(storage),
 			      str_of(storage));
-		}
 	}
 
 	// set origin
 	self->ref    = ref;
-	self->origin = ref->part;
+	self->origin = part;
 
 	// get the original partition storage
 	self->storage_origin =
@@ -95,10 +87,7 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 
 	// if partition has the same storage already, do nothing
 	if (self->storage == self->storage_origin)
-	{
-		engine_unlock(engine, ref, LOCK_SERVICE);
 		return false;
-	}
 
 	// set storage, if not provided by request
 	if (self->storage == NULL)
@@ -108,7 +97,18 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	mutex_lock(&engine->lock);
 	ref_lock(ref, LOCK_ACCESS);
 
-	self->memtable = part_memtable_rotate(self->origin);
+	// previous refresh has failed and its memtable still has events, which
+	// are older then events of the current memtable, merge them first
+	Memtable* prev;
+	part_memtable(self->origin, &prev);
+	if (atomic_u64_of(&prev->count) > 0)
+	{
+		self->memtable = prev;
+		self->leftover = true;
+	} else
+	{
+		self->memtable = part_memtable_rotate(self->origin);
+	}
 
 	ref_unlock(ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
@@ -154,6 +154,12 @@ refresh_apply(Refresh* self)
 	// use active memtable on the new partition
 	memtable_move(part->memtable, origin->memtable);
 
+	// keep the log and the original partition until the new partition
+	// file is completed
+	part->origin = origin;
+	atomic_u64_set(&part->origin_lsn, self->memtable->lsn_min);
+	self->storage_origin->origins++;
+
 	// this should be ID_INCOMPLETE until sync
 	// completed, but made this way in order to be
 	// available for access during the
@@ -168,13 +174,29 @@ refresh_apply(Refresh* self)
 static void
 refresh_end(Refresh* self)
 {
-	auto origin = self->origin;
-	auto part   = self->part;
+	auto part = self->part;
 
 	// free memtable memory
 	memtable_free(self->memtable);
 	self->memtable = NULL;
 
+	// origin is owned by the new partition
+	self->origin = NULL;
+	self->part   = NULL;
+
+	refresh_complete(self->engine, part);
+}
+
+void
+refresh_complete(Engine* self, Part* part)
+{
+	// partition must be locked for service
+
+	// this operation is repeated until it succeed
+	auto origin = part->origin;
+	if (likely(! origin))
+		return;
+
 	// crash case 1
 	error_injection(error_refresh_1);
 
@@ -187,36 +209,39 @@ refresh_end(Refresh* self)
 	// step 2. remove old partition file
 	file_close(&origin->file);
 	part_delete(origin, ID);
-	part_free(origin);
-	self->origin = NULL;
 
 	// crash case 3
 	error_injection(error_refresh_3);
 
 	// step 3. rename new partition
 	part_rename(part, ID_COMPLETE, ID);
-	self->part = NULL;
+
+	// complete
+	mutex_lock(&self->lock);
+	auto storage = storage_mgr_find(&self->storage_mgr, &origin->source->name);
+	storage->origins--;
+	part->origin = NULL;
+	atomic_u64_set(&part->origin_lsn, UINT64_MAX);
+	mutex_unlock(&self->lock);
+	part_free(origin);
 }
 
-void
-refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+static void
+refresh_execute(Refresh* self, Ref* ref, Str* storage)
 {
-	// step 1. find partition and take the service lock
-	//         match storage
-	//         rotate memtable
-	//
-	//         on refresh
-	//           do nothing if memtable is empty
-	//
-	//         on move
-	//           do nothing if partition storage not changed
-	//
-	if (! refresh_begin(self, min, storage, if_exists))
-		return;
-
-	Exception e;
-	if (enter(&e))
+	for (;;)
 	{
+		// step 1. match storage, rotate memtable
+		//
+		//         on refresh
+		//           do nothing if memtable is empty
+		//
+		//         on move
+		//           do nothing if partition storage not changed
+		//
+		if (! refresh_begin(self, ref, storage))
+			break;
+
 		// step 2. create new partition by merging existing partition
 		// file with the memtable
 		refresh_merge(self);
@@ -226,10 +251,35 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 
 		// step 4. finilize and cleanup
 		refresh_end(self);
+
+		// merge current memtable after the one left by a failed refresh
+		if (! self->leftover)
+			break;
+		refresh_reset(self);
+		storage = NULL;
+	}
+}
+
+void
+refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+{
+	// find partition and take the service lock
+	auto engine = self->engine;
+	auto ref = engine_lock(engine, min, LOCK_SERVICE, false, false);
+	if (unlikely(! ref))
+	{
+		if (! if_exists)
+			error("refresh: partition '%" PRIu64 "' not found", min);
+		return;
+	}
+
+	Exception e;
+	if (enter(&e)) {
+		refresh_execute(self, ref, storage);
 	}
 
 	// complete
-	engine_unlock(self->engine, self->ref, LOCK_SERVICE);
+	engine_unlock(engine, ref, LOCK_SERVICE);
 	self->ref = NULL;
 
 	if (leave(&e))
diff --git a/monotone/engine/engine/refresh.h b/monotone/engine/engine/refresh.h
index 071db07..8082d1e 100644
--- a/monotone/engine/engine/refresh.h
+++ b/monotone/engine/engine/refresh.h
@@ -23,6 +23,7 @@ struct Refresh
 	Memtable* memtable;
 	Storage*  storage_origin;
 	Storage*  storage;
+	bool      leftover;
 	Merger    merger;
 	Engine*   engine;
 };
@@ -31,3 +32,4 @@ void refresh_init(Refresh*, Engine*);
 void refresh_free(Refresh*);
 void refresh_reset(Refresh*);
 void refresh_run(Refresh*, uint64_t, Str*, bool);
+void refresh_complete(Engine*, Part*);
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 0c80eec..3c316cf 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -27,6 +27,8 @@ part_allocate(Comparator* comparator, Source* source, Id* id)
 	self->time_create  = 0;
 	self->time_refresh = 0;
 	self->refresh      = false;
+	self->origin       = NULL;
+	self->origin_lsn   = UINT64_MAX;
 	self->cloud        = NULL;
 	self->source       = source;
 	self->comparator   = comparator;
@@ -43,6 +45,8 @@ part_allocate(Comparator* comparator, Source* source, Id* id)
 void
 part_free(Part* self)
 {
+	if (self->origin)
+		part_free(self->origin);
 	memtable_free(&self->memtable_a);
 	memtable_free(&self->memtable_b);
 	file_close(&self->file);
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 1908e1e..dc8eea6 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -28,6 +28,8 @@ struct Part
 	File        file;
 	Index       index;
 	Buf         index_data;
+	Part*       origin;
+	atomic_u64  origin_lsn;
 	Cloud*      cloud;
 	Source*     source;
 	Comparator* comparator;
diff --git a/monotone/engine/storage/storage.h b/monotone/engine/storage/storage.h
index 91256eb..88dd94c 100644
--- a/monotone/engine/storage/storage.h
+++ b/monotone/engine/storage/storage.h
@@ -20,6 +20,7 @@ struct Storage
 	List    list;
 	int     list_count;
 	int     refs;
+	int     origins;
 	int64_t size;
 	int64_t events;
 	Cloud*  cloud;
@@ -44,6 +45,7 @@ storage_allocate(Source* source)
 	self->cloud      = NULL;
 	self->source     = NULL;
 	self->refs       = 0;
+	self->origins    = 0;
 	self->size       = 0;
 	self->events     = 0;
 	self->list_count = 0;
diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 4dd6773..98997df 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -229,7 +229,7 @@ storage_mgr_drop(StorageMgr* self, Str* name, bool if_exists)
 		error("storage '%.*s': has dependencies", str_size(name),
 		      str_of(name));
 
-	if (storage->list_count > 0)
+	if (storage->list_count > 0 || storage->origins > 0)
 		error("storage '%.*s': has partitions", str_size(name),
 		      str_of(name));
 
@@ -255,7 +255,7 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 			      str_of(&source->name));
 		return;
 	}
-	bool is_empty = (storage->list_count == 0);
+	bool is_empty = (storage->list_count == 0 && storage->origins == 0);
 
 	if (mask & SOURCE_CRC)
 	{
-- 
2.43.0


From 501d3329f4920c21d945f4bc2a642a235ad6eea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:36 +0000
Subject: [PATCH 20/53] fix: partition is never refreshed again after a failed
 refresh

---
 monotone/engine/engine/op.c | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2e36782..bf62858 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -620,6 +620,20 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 	return false;
 }
 
+static void
+engine_refresh_abort(Engine* self, uint64_t id)
+{
+	// allow to schedule refresh again after an error
+	control_lock_shared();
+	guard(control_unlock_guard, NULL);
+
+	mutex_lock(&self->lock);
+	auto slice = mapping_match(&self->mapping, id);
+	if (slice)
+		ref_of(slice)->part->refresh = false;
+	mutex_unlock(&self->lock);
+}
+
 void
 engine_rebalance(Engine* self, Refresh* refresh)
 {
@@ -631,10 +645,20 @@ engine_rebalance(Engine* self, Refresh* refresh)
 		uint64_t min;
 		if (! engine_rebalance_next(self, &min, &storage))
 			break;
-		if (str_empty(&storage))
-			engine_drop(self, min, true, ID|ID_CLOUD);
-		else
-			engine_refresh(self, refresh, min, &storage, true);
+
+		Exception e;
+		if (enter(&e))
+		{
+			if (str_empty(&storage))
+				engine_drop(self, min, true, ID|ID_CLOUD);
+			else
+				engine_refresh(self, refresh, min, &storage, true);
+		}
+		if (leave(&e))
+		{
+			engine_refresh_abort(self, min);
+			rethrow();
+		}
 	}
 }
 
@@ -766,7 +790,10 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 		}
 	}
 	if (leave(&e))
-	{ }
+	{
+		if (req->id != UINT64_MAX)
+			engine_refresh_abort(self, req->id);
+	}
 
 	if (req)
 		service_req_free(req);
-- 
2.43.0


From 91a09593c82455702e64cea1cf4e6e45893ee66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 21/53] fix: partition drop is not atomic and is repeated on
 every restart

---
 monotone/engine/engine/op.c    | 200 ++++++++++++++++++++++-----------
 monotone/engine/engine/op.h    |   1 +
 monotone/engine/io/memtable.c  |  26 +++++
 monotone/engine/io/memtable.h  |   1 +
 monotone/engine/wal/log_drop.h |  41 ++++++-
 monotone/main/main/main.c      |   2 +-
 6 files changed, 204 insertions(+), 67 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index bf62858..8556c43 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -199,6 +199,45 @@ engine_lock_service(Engine* self, uint64_t min)
 	return ref;
 }
 
+static void
+engine_drop_files(Engine* self, Part* part, int mask)
+{
+	// partition must be locked for service and access
+
+	// delete partition file on cloud
+	bool has_file = part->state != ID_NONE;
+	if (mask & ID_CLOUD)
+	{
+		if (part_has(part, ID_CLOUD))
+		{
+			part_offload(part, false);
+			part_unset(part, ID_CLOUD);
+		}
+	}
+
+	// delete partition file on storage
+	if (mask & ID)
+	{
+		if (part_has(part, ID))
+		{
+			part_offload(part, true);
+			part_unset(part, ID);
+		}
+	}
+
+	if (has_file && part->state == ID_NONE)
+	{
+		// unset storage metrics before droping the reference
+		mutex_lock(&self->lock);
+		auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
+		storage->size   -= part->index.size_regions;
+		storage->events -= part->index.events;
+		index_init(&part->index);
+		buf_reset(&part->index_data);
+		mutex_unlock(&self->lock);
+	}
+}
+
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
                  bool    cloud_drop_local,
@@ -231,37 +270,9 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	mutex_unlock(&self->lock);
 
 	// delete partition file on storage or cloud
-	bool has_file = part->state != ID_NONE;
 	Exception e;
-	if (enter(&e))
-	{
-		if (mask & ID_CLOUD)
-		{
-			if (part_has(part, ID_CLOUD))
-			{
-				part_offload(part, false);
-				part_unset(part, ID_CLOUD);
-			}
-		}
-
-		if (mask & ID)
-		{
-			if (part_has(part, ID))
-			{
-				part_offload(part, true);
-				part_unset(part, ID);
-			}
-		}
-
-		if (has_file && part->state == ID_NONE)
-		{
-			// unset storage metrics before droping the reference
-			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
-			storage->size   -= part->index.size_regions;
-			storage->events -= part->index.events;
-			index_init(&part->index);
-			buf_reset(&part->index_data);
-		}
+	if (enter(&e)) {
+		engine_drop_files(self, part, mask);
 	}
 
 	mutex_lock(&self->lock);
@@ -276,29 +287,26 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	return true;
 }
 
-static bool
+static void
 engine_drop_reference(Engine* self, uint64_t min)
 {
 	// take exclusive control lock
 	control_lock_exclusive();
+	guard(control_unlock_guard, NULL);
 
 	// find partition = min
 	auto slice = mapping_match(&self->mapping, min);
 	if (! slice)
-	{
-		control_unlock();
-		return true;
-	}
-	auto ref = ref_of(slice);
+		return;
+	auto ref  = ref_of(slice);
 	auto part = ref->part;
 
-	// remove only empty partitions
-	if (part->state != ID_NONE)
-	{
-		// retry truncate
-		control_unlock();
-		return false;
-	}
+	// remove only empty partitions, partition could be
+	// updated after the drop
+	if (part->state != ID_NONE ||
+	    atomic_u64_of(&part->memtable_a.count) > 0 ||
+	    atomic_u64_of(&part->memtable_b.count) > 0)
+		return;
 
 	// remove partition from mapping
 	mapping_remove(&self->mapping, slice);
@@ -307,16 +315,25 @@ engine_drop_reference(Engine* self, uint64_t min)
 	auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
 	storage_remove(storage, part);
 
-	control_unlock();
-
 	// free
 	ref_free(ref);
+}
+
+static void
+engine_drop_part(Engine* self, Ref* ref)
+{
+	// partition must be locked for service and access
+	auto part = ref->part;
 
 	// wal write
+	//
+	// drop must be logged before any of the partition data removed, in case of
+	// crash it will be completed during recovery
+	//
 	if (var_int_of(&config()->wal))
 	{
 		LogDrop drop;
-		log_drop_init(&drop, min);
+		log_drop_init(&drop, ref->slice.min, ref->slice.max);
 		auto rotate_ready = wal_write_op(self->wal, &drop.write);
 
 		// schedule wal rotation
@@ -324,34 +341,91 @@ engine_drop_reference(Engine* self, uint64_t min)
 			service_rotate(self->service);
 	}
 
-	return true;
+	// delete partition files
+	engine_drop_files(self, part, ID|ID_CLOUD);
+
+	// remove events
+	memtable_free(&part->memtable_a);
+	memtable_free(&part->memtable_b);
+	part->refresh = false;
 }
 
 void
 engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 {
-	// partition drop
-	if (mask == (ID|ID_CLOUD))
+	// drop partition file on storage or cloud only
+	if (mask != (ID|ID_CLOUD))
 	{
-		for (;;)
-		{
-			// in order to avoid heavy exclusive lock during drop,
-			// separate file drop first
-			auto exists = engine_drop_file(self, min, if_exists, false, mask);
-			if (! exists)
-				break;
+		engine_drop_file(self, min, if_exists, false, mask);
+		return;
+	}
 
-			// try to drop partition mapping, or retry drop if
-			// partition still has files
-			if (engine_drop_reference(self, min))
-				break;
-		}
+	// partition drop
 
+	// find the original partition
+	auto ref = engine_lock_service(self, min);
+	if (unlikely(! ref))
+	{
+		if (! if_exists)
+			error("drop: partition '%" PRIu64 "' not found", min);
 		return;
 	}
 
-	// drop partition file on storage or cloud only
-	engine_drop_file(self, min, if_exists, false, mask);
+	// get access lock
+	mutex_lock(&self->lock);
+	ref_lock(ref, LOCK_ACCESS);
+	mutex_unlock(&self->lock);
+
+	// in order to avoid heavy exclusive lock during drop,
+	// remove partition data first
+	Exception e;
+	if (enter(&e)) {
+		engine_drop_part(self, ref);
+	}
+
+	mutex_lock(&self->lock);
+	ref_unlock(ref, LOCK_ACCESS);
+	mutex_unlock(&self->lock);
+
+	engine_unlock(self, ref, LOCK_SERVICE);
+
+	if (leave(&e))
+		rethrow();
+
+	// remove partition mapping
+	engine_drop_reference(self, min);
+}
+
+void
+engine_drop_replay(Engine* self, LogDrop* drop)
+{
+	uint64_t lsn = drop->write.lsn;
+	uint64_t min = log_drop_min(drop);
+	uint64_t max = log_drop_max(drop);
+	config_lsn_follow(lsn);
+
+	// apply to all partitions in range
+	auto slice = mapping_gte(&self->mapping, min);
+	while (slice && slice->min <= max)
+	{
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
+		slice = mapping_next(&self->mapping, slice);
+
+		if (part->state != ID_NONE)
+		{
+			// skip if partition is newer then drop
+			if (part->index.lsn > lsn)
+				continue;
+			engine_drop_files(self, part, ID|ID_CLOUD);
+			memtable_free(&part->memtable_a);
+			memtable_free(&part->memtable_b);
+		} else
+		{
+			memtable_unset_range(part->memtable, min, max);
+		}
+		engine_drop_reference(self, ref->slice.min);
+	}
 }
 
 void
diff --git a/monotone/engine/engine/op.h b/monotone/engine/engine/op.h
index a4ab3db..fc12b90 100644
--- a/monotone/engine/engine/op.h
+++ b/monotone/engine/engine/op.h
@@ -17,6 +17,7 @@
 void engine_fill_nolock(Engine*, uint64_t, uint64_t);
 void engine_fill(Engine*, uint64_t, uint64_t);
 void engine_drop(Engine*, uint64_t, bool, int);
+void engine_drop_replay(Engine*, LogDrop*);
 void engine_drop_range(Engine*, uint64_t, uint64_t, int);
 
 // cloud
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 43f6197..fcdaf2c 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -348,6 +348,32 @@ memtable_unset(Memtable* self, Event* event)
 	}
 }
 
+void
+memtable_unset_range(Memtable* self, uint64_t min, uint64_t max)
+{
+	// remove all events with id in the [min, max] range
+	Buf list;
+	buf_init(&list);
+	guard(buf_free, &list);
+
+	auto node = (self->count_pages > 0) ? rbtree_min(&self->tree) : NULL;
+	for (; node; node = rbtree_next(&self->tree, node))
+	{
+		auto page = memtable_page_of(node);
+		for (int i = 0; i < page->events_count; i++)
+		{
+			auto event = page->events[i];
+			if (event->id >= min && event->id <= max)
+				buf_write(&list, &event, sizeof(event));
+		}
+	}
+
+	auto pos = (Event**)list.start;
+	auto end = (Event**)list.position;
+	for (; pos < end; pos++)
+		memtable_unset(self, *pos);
+}
+
 Event*
 memtable_max(Memtable* self)
 {
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 1271484..46403d8 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -43,6 +43,7 @@ void   memtable_free(Memtable*);
 void   memtable_move(Memtable*, Memtable*);
 Event* memtable_set(Memtable*, Event*);
 void   memtable_unset(Memtable*, Event*);
+void   memtable_unset_range(Memtable*, uint64_t, uint64_t);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
 void   memtable_reserve(Memtable*, uint64_t);
diff --git a/monotone/engine/wal/log_drop.h b/monotone/engine/wal/log_drop.h
index 55f8254..cafd23c 100644
--- a/monotone/engine/wal/log_drop.h
+++ b/monotone/engine/wal/log_drop.h
@@ -15,14 +15,29 @@
 
 typedef struct LogDrop LogDrop;
 
+// drop of the partition which has default interval range has
+// only id
+#define LOG_DROP_SIZE (sizeof(LogWrite) + sizeof(uint64_t))
+
 struct LogDrop
 {
 	LogWrite write;
 	uint64_t id;
+	uint64_t max;
 } packed;
 
+static inline uint64_t
+log_drop_max_default(uint64_t id)
+{
+	uint64_t min = config_interval_of(id);
+	uint64_t max = (min + config_interval()) - 1;
+	if (unlikely(max < min))
+		max = UINT64_MAX;
+	return max;
+}
+
 static inline void
-log_drop_init(LogDrop* self, uint64_t id)
+log_drop_init(LogDrop* self, uint64_t min, uint64_t max)
 {
 	auto write = &self->write;
 	write->crc   = 0;
@@ -30,8 +45,28 @@ log_drop_init(LogDrop* self, uint64_t id)
 	write->type  = LOG_DROP;
 	write->count = 0;
 	write->size  = sizeof(LogDrop);
-	self->id     = id;
+	self->id     = min;
+	self->max    = max;
+	if (min == config_interval_of(min) && max == log_drop_max_default(min))
+		write->size = LOG_DROP_SIZE;
 	// calculate crc
 	if (var_int_of(&config()->wal_crc))
-		self->write.crc = crc32(self->write.crc, &id, sizeof(id));
+		self->write.crc = crc32(self->write.crc, &self->id,
+		                        write->size - sizeof(LogWrite));
+}
+
+static inline uint64_t
+log_drop_min(LogDrop* self)
+{
+	if (self->write.size == LOG_DROP_SIZE)
+		return config_interval_of(self->id);
+	return self->id;
+}
+
+static inline uint64_t
+log_drop_max(LogDrop* self)
+{
+	if (self->write.size == LOG_DROP_SIZE)
+		return log_drop_max_default(self->id);
+	return self->max;
 }
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index e6f0967..4047393 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -193,7 +193,7 @@ main_replay(Main* self)
 		case LOG_DROP:
 		{
 			auto drop = (LogDrop*)write;
-			engine_drop(&self->engine, drop->id, true, ID|ID_CLOUD);
+			engine_drop_replay(&self->engine, drop);
 			break;
 		}
 		default:
-- 
2.43.0


From ddbedc8025452ec843de6fee182b34eeca17a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:25 +0000
Subject: [PATCH 22/53] fix: storage is left with an unknown cloud after failed
 ALTER

ALTER STORAGE SET (cloud) detached the current cloud, applied and saved new
settings before checking that the new cloud exists, after the error such
database could not be opened again.
---
 monotone/engine/storage/storage_mgr.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 98997df..bb25e5e 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -113,13 +113,9 @@ storage_mgr_create_main(StorageMgr* self)
 	return storage_mgr_create(self, config, true);
 }
 
-static void
-storage_set_cloud(StorageMgr* self, Storage* storage, bool attach)
+static Cloud*
+storage_find_cloud(StorageMgr* self, Source* source)
 {
-	auto source = storage->source;
-	if (str_empty(&source->cloud))
-		return;
-
 	auto cloud = cloud_mgr_find(self->cloud_mgr, &source->cloud);
 	if (! cloud)
 		error("storage '%.*s': cloud '%.*s' not exists",
@@ -127,7 +123,17 @@ storage_set_cloud(StorageMgr* self, Storage* storage, bool attach)
 		      str_of(&source->name),
 		      str_size(&source->cloud),
 		      str_of(&source->cloud));
+	return cloud;
+}
 
+static void
+storage_set_cloud(StorageMgr* self, Storage* storage, bool attach)
+{
+	auto source = storage->source;
+	if (str_empty(&source->cloud))
+		return;
+
+	auto cloud = storage_find_cloud(self, source);
 	if (attach)
 		cloud_attach(cloud, source);
 
@@ -295,6 +301,10 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				      str_of(&source->name));
 		}
 
+		// ensure new cloud exists before applying any changes
+		if (! str_empty(&source->cloud))
+			storage_find_cloud(self, source);
+
 		if (storage->cloud)
 			cloud_detach(storage->cloud, storage->source);
 	}
-- 
2.43.0


From 3a5e12f19667075769b8a5f35ba26b23a00e00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:29 +0000
Subject: [PATCH 23/53] fix: partition data crc is never checked on read

Region crc is calculated and stored in the index, but it was not used during
read: altered data was returned to the user or decoded without any checks.
---
 monotone/engine/io/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index 5be2947..18c5327 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -107,6 +107,14 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	}
 	Buf* origin = &self->buf;
 
+	// check region crc
+	if (part->source->crc)
+	{
+		uint32_t crc = crc32(0, origin->start, buf_size(origin));
+		if (crc != index_region->crc)
+			error("read: region crc mismatch");
+	}
+
 	// decrypt region
 	if (self->encryption)
 	{
-- 
2.43.0


From 45a2d13210222165e31ccd5981a2b5d97b477288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:50 +0000
Subject: [PATCH 24/53] fix: configuration is lost when config save fails or is
 interrupted

config.json was moved aside and created again, a failure or a crash before it
is completely written left the database without its configuration. Write the
new file first and replace the existing one using rename.
---
 monotone/runtime/config/config.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index 9abde99..3a070c6 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -254,21 +254,17 @@ config_save_to(Config* self, const char* path)
 void
 config_save(Config* self, const char* path)
 {
-	// remove old saved config, if exists
-	Buf buf;
-	buf_init(&buf);
-	guard(buf_free, &buf);
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
+	// remove incomplete config left by a failed save, if exists
+	char path_tmp[PATH_MAX];
+	snprintf(path_tmp, sizeof(path_tmp), "%s.tmp", path);
+	if (fs_exists("%s", path_tmp))
+		fs_unlink("%s", path_tmp);
 
-	// save existing config as a old
-	fs_rename(path,  "%s.old", path);
-
-	// create config file
-	config_save_to(self, path);
+	// create new config file
+	config_save_to(self, path_tmp);
 
-	// remove old config file
-	fs_unlink("%s.old", path);
+	// replace existing config file
+	fs_rename(path_tmp, "%s", path);
 }
 
 void
@@ -288,7 +284,7 @@ config_open(Config* self, const char* path)
 	}
 
 	// create config file
-	config_save_to(self, path);
+	config_save(self, path);
 }
 
 void
-- 
2.43.0


From 60c48a77acfcae69b38271c8153d85fc1cbc7f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:53 +0000
Subject: [PATCH 25/53] fix: pipeline accepts the same storage twice

Only adjacent tiers were checked. With such pipeline rebalance moves partitions
between the same storages without an end and rename updates only one tier.
---
 monotone/engine/storage/pipeline.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index 7c89b76..c1fe112 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -108,10 +108,13 @@ pipeline_alter_validate(List* configs)
 			break;
 
 		// cannot use same storage
-		auto next = container_of(_i->next, TierConfig, link);
-		if (str_compare(&config->name, &next->name))
-			error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
-			      str_of(&config->name));
+		for (auto pos = _i->next; pos != configs; pos = pos->next)
+		{
+			auto next = container_of(pos, TierConfig, link);
+			if (str_compare(&config->name, &next->name))
+				error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
+				      str_of(&config->name));
+		}
 
 		// ensure conditions are set to use next
 		if (tier_config_terminal(config))
-- 
2.43.0


From 3c42b2414cd34c5d778f4ee86fa2842a315f28a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 26/53] fix: failed MOVE to unknown storage drops the cloud
 copy of the partition

Partition was downloaded and dropped from the cloud before the check that the
target storage exists.
---
 monotone/engine/engine/op.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 8556c43..2509d1d 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -579,6 +579,16 @@ void
 engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
                bool if_exists)
 {
+	// ensure target storage exists before moving partition from the cloud
+	if (storage)
+	{
+		control_lock_shared();
+		guard(control_unlock_guard, NULL);
+		if (! storage_mgr_find(&self->storage_mgr, storage))
+			error("storage '%.*s': not exists", str_size(storage),
+			      str_of(storage));
+	}
+
 	// download partition from cloud, if necessary
 	engine_download(self, min, if_exists, true);
 
-- 
2.43.0


From f2d0b665d6a1c888e4650d556122190c04131b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:55 +0000
Subject: [PATCH 27/53] fix: second open of the same environment is not
 rejected

It was only reported to the log and the second directory was opened on top of
the running one.
---
 monotone/main/main/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 4047393..195ef6a 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -118,7 +118,7 @@ static void
 main_deploy(Main* self, Str* directory)
 {
 	if (config_online())
-		log("environment is already open");
+		error("environment is already open");
 
 	// prepare random manager
 	random_open(&self->random);
-- 
2.43.0


From 4bed99309cfa13c797ff8e0e9466bd0883fe238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:39 +0000
Subject: [PATCH 28/53] fix: operations on environment that is not open

Write before open crashed and catalog statements tried to create files relative
to an empty directory path. Report an error instead.
---
 monotone/main/api/monotone.c | 9 +++++++++
 monotone/main/main/execute.c | 7 +++++++
 2 files changed, 16 insertions(+)

diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index d4688e4..4ff4416 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -41,6 +41,13 @@ monotone_enter(monotone_t* self)
 	runtime_init(&self->main.context);
 }
 
+static inline void
+monotone_validate(void)
+{
+	if (unlikely(! config_online()))
+		error("environment is not open");
+}
+
 MONOTONE_API monotone_t*
 monotone_init(void)
 {
@@ -156,6 +163,7 @@ monotone_write(monotone_t* self, monotone_event_t* events, int count)
 	int rc = 0;
 	Exception e;
 	if (enter(&e)) {
+		monotone_validate();
 		engine_write(&self->main.engine, (EventArg*)events, count);
 	}
 	if (leave(&e)) {
@@ -181,6 +189,7 @@ monotone_cursor(monotone_t* self, const char* options, monotone_event_t* key)
 	Exception e;
 	if (enter(&e))
 	{
+		monotone_validate();
 		if (key == NULL) {
 			engine_cursor_open(&cursor->cursor, &self->main.engine, NULL);
 		} else
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 9cd65c5..ec3f7ad 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -546,6 +546,13 @@ main_execute(Main* self, const char* command, char** result)
 	if (cmd == NULL)
 		return;
 
+	// only settings can be used before the environment is open
+	if (!config_online() && cmd->type > CMD_DEBUG)
+	{
+		cmd_free(cmd);
+		error("environment is not open");
+	}
+
 	// prepare for execution
 	auto execute = &cmds[cmd->type];
 	switch (execute->lock) {
-- 
2.43.0


From 43f65666a7db087badc2465eacc56a47b05c8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:56 +0000
Subject: [PATCH 29/53] fix: log files left by a failed garbage collection can
 outlive newer ones

Files which could not be removed were forgotten and left on disk, newer files
were still removed later. After restart old records were replayed without the
drop records following them, dropped partitions were restored.
---
 monotone/engine/wal/wal.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 0c6067a..1c2ba6f 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -142,13 +142,25 @@ wal_gc(Wal* self, uint64_t snapshot)
 	{
 		char path[PATH_MAX];
 		uint64_t *ids = (uint64_t*)list.start;
-		int i = 0;
-		for (; i < list_count; i++)
+		volatile int i = 0;
+		Exception e;
+		if (enter(&e))
 		{
-			snprintf(path, sizeof(path), "%s/wal/%020" PRIu64 ".wal",
-			         config_directory(),
-			         ids[i]);
-			fs_unlink("%s", path);
+			for (; i < list_count; i++)
+			{
+				snprintf(path, sizeof(path), "%s/wal/%020" PRIu64 ".wal",
+				         config_directory(),
+				         ids[i]);
+				fs_unlink("%s", path);
+			}
+		}
+		if (leave(&e))
+		{
+			// keep files which are not removed in the list, newer files
+			// must not be removed before them
+			for (; i < list_count; i++)
+				wal_id_add(&self->list, ids[i]);
+			rethrow();
 		}
 	}
 }
-- 
2.43.0


From 33bb3194846ee68e4419b235a6196b28639629c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:40 +0000
Subject: [PATCH 30/53] fix: partition is not readable after failed drop

Partition file was closed before an attempt to remove it.
---
 monotone/engine/io/part.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 3c316cf..793fb9e 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -207,9 +207,9 @@ part_offload(Part* self, bool from_storage)
 	// remove from storage
 	if (from_storage)
 	{
-		// remove data file
-		file_close(&self->file);
+		// remove data file, it must remain readable on error
 		part_delete(self, ID);
+		file_close(&self->file);
 		return;
 	}
 
-- 
2.43.0


From ae072a0498593a5bf8680b04fcc114408ea4a2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:44 +0000
Subject: [PATCH 31/53] fix: checkpoint skips events left by a failed refresh

Only active memtable was checked, partition which has events only in the
memtable left by a failed refresh was never saved by checkpoint.
---
 monotone/engine/engine/op.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2509d1d..dbd009a 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -758,9 +758,11 @@ engine_checkpoint(Engine* self)
 	while (slice)
 	{
 		auto ref = ref_of(slice);
-		if (!ref->part->refresh && heap_used(&ref->part->memtable->heap) > 0)
+		auto part = ref->part;
+		auto used = heap_used(&part->memtable_a.heap) +
+		            heap_used(&part->memtable_b.heap);
+		if (!part->refresh && used > 0)
 		{
-			auto part = ref->part;
 			service_refresh(self->service, part);
 			part->refresh = true;
 		}
-- 
2.43.0


From fce4ac71dbbbe2e641ec6ee76c4fab2a6fd70fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:10 +0000
Subject: [PATCH 32/53] fix: refresh_wm is truncated to 32 bit

Partitions of storages with refresh_wm above 4GB were refreshed too early, on
every write for multiples of 4GB.
---
 monotone/cloud/cloud/source.h | 2 +-
 monotone/engine/io/part.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/cloud/cloud/source.h b/monotone/cloud/cloud/source.h
index 6178ddf..0b7ed52 100644
--- a/monotone/cloud/cloud/source.h
+++ b/monotone/cloud/cloud/source.h
@@ -127,7 +127,7 @@ source_set_crc(Source* self, bool value)
 }
 
 static inline void
-source_set_refresh_wm(Source* self, int value)
+source_set_refresh_wm(Source* self, int64_t value)
 {
 	self->refresh_wm = value;
 }
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index dc8eea6..f4e80e1 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -113,5 +113,5 @@ part_refresh_ready(Part* self)
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-	return heap_used(&self->memtable->heap) > (uint32_t)self->source->refresh_wm;
+	return heap_used(&self->memtable->heap) > (uint64_t)self->source->refresh_wm;
 }
-- 
2.43.0


From ef0034af17867a3ac5e4e5996c9c6f721ed7a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:42 +0000
Subject: [PATCH 33/53] fix: events lost after a split of a memtable page in
 the middle

A page created by split was always attached as the right child of the
page being split, dropping its existing right subtree together with all
of its events.
---
 monotone/engine/io/memtable.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index fcdaf2c..970179d 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -304,8 +304,15 @@ memtable_set(Memtable* self, Event* event)
 	auto prev = memtable_insert(self, page, &page_split, event);
 	if (page_split)
 	{
-		// update split page
-		rbtree_set(&self->tree, &page->node, -1, &page_split->node);
+		// add split page right after the page (in order)
+		auto parent = &page->node;
+		int  rc     = -1;
+		if (parent->r)
+		{
+			parent = rbtree_next(&self->tree, parent);
+			rc = 1;
+		}
+		rbtree_set(&self->tree, parent, rc, &page_split->node);
 		self->count_pages++;
 	}
 	return prev;
-- 
2.43.0


From b6af8a6326238775ae355b9a9efb5d8adedbabe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:48 +0000
Subject: [PATCH 34/53] fix: order of partitions and regions wrong for distant
 ids

The difference of two unsigned 64-bit ids was used as the result of
comparison: it overflows for ids which differ by more than 2^63 and was
truncated to 32 bits by rbtree lookups, so partitions could be found
out of order, not found or considered equal.
---
 monotone/runtime/runtime/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/runtime/misc.h b/monotone/runtime/runtime/misc.h
index 3b747eb..5561c0b 100644
--- a/monotone/runtime/runtime/misc.h
+++ b/monotone/runtime/runtime/misc.h
@@ -16,5 +16,5 @@
 always_inline static inline int64_t
 compare_u64(uint64_t a, uint64_t b)
 {
-	return (int64_t)a - (int64_t)b;
+	return (a > b) - (a < b);
 }
-- 
2.43.0


From c91bbb8d62a5b85be9ea104e815e4c1801e873f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:00 +0000
Subject: [PATCH 35/53] fix: lz4 contexts are returned to the zstd cache

Partitions could not be read (or were written with a wrong compression)
once both lz4 and zstd storages were used.
---
 monotone/runtime/lib/compression_mgr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_mgr.c b/monotone/runtime/lib/compression_mgr.c
index 395d88f..c04765a 100644
--- a/monotone/runtime/lib/compression_mgr.c
+++ b/monotone/runtime/lib/compression_mgr.c
@@ -33,6 +33,11 @@ compression_mgr_free(CompressionMgr* self)
 	cache_reset(&self->cache_zstd);
 	cache_free(&self->cache_zstd);
 
+	list_foreach_safe(&self->cache_lz4.list)
+	{
+		auto ref = list_at(Compression, link);
+		compression_free(ref);
+	}
 	cache_reset(&self->cache_lz4);
 	cache_free(&self->cache_lz4);
 }
@@ -67,7 +72,7 @@ compression_mgr_push(CompressionMgr* self, Compression* compression)
 	}
 	if (compression->iface->id == COMPRESSION_LZ4)
 	{
-		cache_push(&self->cache_zstd, &compression->link);
+		cache_push(&self->cache_lz4, &compression->link);
 		return;
 	}
 	abort();
-- 
2.43.0


From 81ee5968f13bb9ba2da94dafe02fe0bf0b4ec3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:36 +0000
Subject: [PATCH 36/53] fix: crash on write when the first event is rejected

---
 monotone/engine/engine/write.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index a6dafcf..84e5298 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -24,10 +24,10 @@
 static void
 engine_rollback(Engine* self, Log* log)
 {
-	auto pos   = log_last(log);
-	auto first = log_first(log);
-	while (pos >= first)
+	// write can fail before the first event is added
+	for (int i = (int)log->write.count - 1; i >= 0; i--)
 	{
+		auto pos = log_of(log, i);
 		if (pos->ref)
 		{
 			Ref* ref = pos->ref;
@@ -38,7 +38,6 @@ engine_rollback(Engine* self, Log* log)
 				memtable_unset(ref->part->memtable, pos->event);
 			engine_unlock(self, ref, LOCK_ACCESS);
 		}
-		pos--;
 	}
 	log_reset(log);
 }
-- 
2.43.0


From 9e12117269fce7f11d3fdf4204190601eb1d305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:32 +0000
Subject: [PATCH 37/53] fix: partition can be lost after a failed drop from
 cloud

The cloud file is removed first. When the removal of the data has failed
the partition was still considered to be on cloud, so that its local copy
could be dropped while the partition would not be found after restart.
---
 monotone/engine/engine/op.c | 27 ++++++++++++++++-----------
 monotone/engine/io/part.c   |  4 +++-
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index dbd009a..f00585c 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -206,24 +206,26 @@ engine_drop_files(Engine* self, Part* part, int mask)
 
 	// delete partition file on cloud
 	bool has_file = part->state != ID_NONE;
-	if (mask & ID_CLOUD)
+	Exception e;
+	if (enter(&e))
 	{
-		if (part_has(part, ID_CLOUD))
+		if (mask & ID_CLOUD)
 		{
-			part_offload(part, false);
-			part_unset(part, ID_CLOUD);
+			if (part_has(part, ID_CLOUD))
+				part_offload(part, false);
 		}
-	}
 
-	// delete partition file on storage
-	if (mask & ID)
-	{
-		if (part_has(part, ID))
+		// delete partition file on storage
+		if (mask & ID)
 		{
-			part_offload(part, true);
-			part_unset(part, ID);
+			if (part_has(part, ID))
+			{
+				part_offload(part, true);
+				part_unset(part, ID);
+			}
 		}
 	}
+	bool failed = leave(&e);
 
 	if (has_file && part->state == ID_NONE)
 	{
@@ -236,6 +238,9 @@ engine_drop_files(Engine* self, Part* part, int mask)
 		buf_reset(&part->index_data);
 		mutex_unlock(&self->lock);
 	}
+
+	if (failed)
+		rethrow();
 }
 
 static bool
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 793fb9e..512cbce 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -216,8 +216,10 @@ part_offload(Part* self, bool from_storage)
 	// remove from cloud
 	assert(self->cloud);
 
-	// remove cloud file first
+	// remove cloud file first, partition is no longer on cloud after that
+	// even if its data could not be removed
 	part_delete(self, ID_CLOUD);
+	part_unset(self, ID_CLOUD);
 
 	// remove from cloud
 	cloud_remove(self->cloud, self->source, &self->id);
-- 
2.43.0


From 81b0a7ff3265262f3d4b46d84cb3438b00ced797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 38/53] fix: unrelated files in the log directory are taken for
 log files

---
 monotone/engine/wal/wal.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 1c2ba6f..552a3d6 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -176,6 +176,9 @@ wal_file_id_of(const char* path)
 		id = (id * 10) + *path - '0';
 		path++;
 	}
+	// <id>.wal
+	if (unlikely(strcmp(path, ".wal") != 0))
+		return -1;
 	return id;
 }
 
-- 
2.43.0


From c0a6694b6ba1c6b42e972aa40d3d958281013894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:35 +0000
Subject: [PATCH 39/53] fix: file of a failed download recovered after its
 partition is dropped

---
 monotone/engine/engine/op.c |  5 +++++
 monotone/engine/io/part.c   | 12 +++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index f00585c..b03d5bb 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -209,6 +209,11 @@ engine_drop_files(Engine* self, Part* part, int mask)
 	Exception e;
 	if (enter(&e))
 	{
+		// remove file left by a failed download, it would be recovered
+		// as a partition copy
+		if (! part_has(part, ID))
+			part_delete(part, ID);
+
 		if (mask & ID_CLOUD)
 		{
 			if (part_has(part, ID_CLOUD))
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 512cbce..9aaab1b 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -179,7 +179,17 @@ part_download(Part* self)
 	cloud_download(self->cloud, self->source, &self->id);
 
 	// open
-	part_open(self, ID, false);
+	Exception e;
+	if (enter(&e)) {
+		part_open(self, ID, false);
+	}
+	if (leave(&e))
+	{
+		// partition remains on cloud only
+		file_close(&self->file);
+		part_delete(self, ID);
+		rethrow();
+	}
 }
 
 void
-- 
2.43.0


From b89499fb408a3290d8f1400c6a82d6fb9903f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:55 +0000
Subject: [PATCH 40/53] fix: worker crashes after a failed background request

---
 monotone/engine/engine/op.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index b03d5bb..1b89a44 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -718,14 +718,14 @@ static void
 engine_refresh_abort(Engine* self, uint64_t id)
 {
 	// allow to schedule refresh again after an error
+	// (called outside of the exception context)
 	control_lock_shared();
-	guard(control_unlock_guard, NULL);
-
 	mutex_lock(&self->lock);
 	auto slice = mapping_match(&self->mapping, id);
 	if (slice)
 		ref_of(slice)->part->refresh = false;
 	mutex_unlock(&self->lock);
+	control_unlock();
 }
 
 void
-- 
2.43.0


From 505efa204f83daac1fbc498585dc702ca86bdb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 41/53] fix: concurrent refresh of a partition in the cloud
 loses its only copy

---
 monotone/engine/engine/op.c          | 47 ++++++++++++++++++++--------
 monotone/engine/engine/refresh.c     | 12 +++++--
 monotone/engine/engine/refresh.h     |  2 +-
 monotone/engine/engine/service_req.h | 14 +++++++++
 4 files changed, 59 insertions(+), 16 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 1b89a44..91ca028 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -250,7 +250,7 @@ engine_drop_files(Engine* self, Part* part, int mask)
 
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
-                 bool    cloud_drop_local,
+                 bool    automatic,
                  int     mask)
 {
 	// find the original partition
@@ -264,10 +264,16 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	auto part = ref->part;
 
 	// execute automatic drop only, if file is on cloud and allowed
-	// by the partition source
-	if (cloud_drop_local)
+	// by the partition source, or if file is on storage in case of drop
+	// from cloud (partition could be changed by another refresh)
+	if (automatic)
 	{
-		if (!part->source->cloud_drop_local || !part_has(part, ID_CLOUD))
+		bool allowed;
+		if (mask & ID)
+			allowed = part->source->cloud_drop_local && part_has(part, ID_CLOUD);
+		else
+			allowed = part_has(part, ID);
+		if (! allowed)
 		{
 			engine_unlock(self, ref, LOCK_SERVICE);
 			return false;
@@ -599,15 +605,22 @@ engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
 			      str_of(storage));
 	}
 
-	// download partition from cloud, if necessary
-	engine_download(self, min, if_exists, true);
+	for (;;)
+	{
+		// download partition from cloud, if necessary
+		engine_download(self, min, if_exists, true);
+
+		// drop partition from cloud
+		engine_drop_file(self, min, if_exists, true, ID_CLOUD);
 
-	// drop partition from cloud
-	engine_drop(self, min, if_exists, ID_CLOUD);
+		// refresh partition
+		refresh_reset(refresh);
+		if (refresh_run(refresh, min, storage, if_exists))
+			break;
 
-	// refresh partition
-	refresh_reset(refresh);
-	refresh_run(refresh, min, storage, if_exists);
+		// partition has been uploaded by another refresh in the
+		// meantime, repeat
+	}
 
 	// upload partition back to cloud
 	engine_upload(self, min, true, true);
@@ -867,11 +880,19 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 				engine_drop_file(self, req->id, true, true, ID);
 				break;
 			case ACTION_DROP_ON_CLOUD:
-				engine_drop(self, req->id, true, ID_CLOUD);
+				engine_drop_file(self, req->id, true, true, ID_CLOUD);
 				break;
 			case ACTION_REFRESH:
 				refresh_reset(refresh);
-				refresh_run(refresh, req->id, NULL, true);
+				if (! refresh_run(refresh, req->id, NULL, true))
+				{
+					// partition has been uploaded by another refresh
+					// in the meantime, repeat
+					if (service_req_rewind(req, ACTION_DOWNLOAD))
+						continue;
+					error("refresh: partition '%" PRIu64 "' must be dropped from the cloud first",
+					      req->id);
+				}
 				break;
 			case ACTION_DOWNLOAD:
 				engine_download(self, req->id, true, true);
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index c62ef3c..2e769f9 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -260,7 +260,7 @@ refresh_execute(Refresh* self, Ref* ref, Str* storage)
 	}
 }
 
-void
+bool
 refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 {
 	// find partition and take the service lock
@@ -270,7 +270,14 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	{
 		if (! if_exists)
 			error("refresh: partition '%" PRIu64 "' not found", min);
-		return;
+		return true;
+	}
+
+	// partition must be downloaded and dropped from the cloud first
+	if (part_has(ref->part, ID_CLOUD) && ref->part->cloud)
+	{
+		engine_unlock(engine, ref, LOCK_SERVICE);
+		return false;
 	}
 
 	Exception e;
@@ -284,4 +291,5 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 
 	if (leave(&e))
 		rethrow();
+	return true;
 }
diff --git a/monotone/engine/engine/refresh.h b/monotone/engine/engine/refresh.h
index 8082d1e..23a7e08 100644
--- a/monotone/engine/engine/refresh.h
+++ b/monotone/engine/engine/refresh.h
@@ -31,5 +31,5 @@ struct Refresh
 void refresh_init(Refresh*, Engine*);
 void refresh_free(Refresh*);
 void refresh_reset(Refresh*);
-void refresh_run(Refresh*, uint64_t, Str*, bool);
+bool refresh_run(Refresh*, uint64_t, Str*, bool);
 void refresh_complete(Engine*, Part*);
diff --git a/monotone/engine/engine/service_req.h b/monotone/engine/engine/service_req.h
index 5e6d335..4c84eb4 100644
--- a/monotone/engine/engine/service_req.h
+++ b/monotone/engine/engine/service_req.h
@@ -67,3 +67,17 @@ service_req_is_upload(ServiceReq* self)
 {
 	return self->actions[self->current].type == ACTION_UPLOAD;
 }
+
+static inline bool
+service_req_rewind(ServiceReq* self, ActionType type)
+{
+	for (int i = 0; i < self->actions_count; i++)
+	{
+		if (self->actions[i].type == type)
+		{
+			self->current = i;
+			return true;
+		}
+	}
+	return false;
+}
-- 
2.43.0


From ae43b9e6333e6b63b9f28a6d789aeb651461f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:16 +0000
Subject: [PATCH 42/53] fix: deadlock between batches which write to the same
 partitions

---
 monotone/engine/engine/write.c | 81 ++++++++++++++++++++++++++++++++++
 1 file changed, 81 insertions(+)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index 84e5298..d1ff61f 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -85,15 +85,94 @@ engine_write_reserve(Log* log)
 	}
 }
 
+static int
+engine_write_compare(const void* a, const void* b)
+{
+	auto l = *(uint64_t*)a;
+	auto r = *(uint64_t*)b;
+	return (l > r) - (l < r);
+}
+
+static void
+engine_write_lock(Engine* self, EventArg* events, int count, Buf* locks)
+{
+	// partitions are locked one by one while the batch is being added, this
+	// can deadlock with another batch unless both of them follow
+	// the order of partitions
+	bool in_order = true;
+	int  serial   = 0;
+	for (int i = 0; i < count; i++)
+	{
+		auto arg = &events[i];
+		if (unlikely(arg->key_size > UINT8_MAX))
+		{
+			// batch will fail on this event
+			count = i;
+			break;
+		}
+		if (arg->id == UINT64_MAX && config_serial())
+			serial++;
+		else
+		if (i > 0 && arg->id < events[i - 1].id)
+			in_order = false;
+	}
+	if (in_order && (serial == 0 || serial == count))
+		return;
+
+	// hold created partitions until they are locked
+	control_lock_shared();
+	guard(control_unlock_guard, NULL);
+
+	// assign serial ids and create partitions in the order of the batch
+	Buf ids;
+	buf_init(&ids);
+	guard(buf_free, &ids);
+	buf_reserve(&ids, sizeof(uint64_t) * count);
+	for (int i = 0; i < count; i++)
+	{
+		auto arg = &events[i];
+		if (arg->id == UINT64_MAX && config_serial())
+			arg->id = config_ssn_next();
+		buf_write(&ids, &arg->id, sizeof(arg->id));
+
+		auto ref = engine_lock(self, arg->id, LOCK_ACCESS, false, true);
+		engine_unlock(self, ref, LOCK_ACCESS);
+	}
+	qsort(ids.start, count, sizeof(uint64_t), engine_write_compare);
+
+	// lock
+	buf_reserve(locks, sizeof(Ref*) * count);
+	for (int i = 0; i < count; i++)
+	{
+		auto id  = ((uint64_t*)ids.start)[i];
+		auto ref = engine_lock(self, id, LOCK_ACCESS, false, true);
+		buf_write(locks, &ref, sizeof(ref));
+	}
+}
+
+static void
+engine_write_unlock(Engine* self, Buf* locks)
+{
+	auto pos = (Ref**)locks->start;
+	auto end = (Ref**)locks->position;
+	for (; pos < end; pos++)
+		engine_unlock(self, *pos, LOCK_ACCESS);
+	buf_free(locks);
+}
+
 hot void
 engine_write(Engine* self, EventArg* events, int count)
 {
 	Log log;
 	log_init(&log);
+	Buf locks;
+	buf_init(&locks);
 
 	Exception e;
 	if (enter(&e))
 	{
+		engine_write_lock(self, events, count, &locks);
+
 		for (int i = 0; i < count; i++)
 		{
 			auto arg = &events[i];
@@ -147,11 +226,13 @@ engine_write(Engine* self, EventArg* events, int count)
 	{
 		engine_rollback(self, &log);
 		log_free(&log);
+		engine_write_unlock(self, &locks);
 		rethrow();
 	}
 
 	engine_commit(self, &log);
 	log_free(&log);
+	engine_write_unlock(self, &locks);
 }
 
 void
-- 
2.43.0


From 375eff557daf602f65269efca7ec20183e1c4820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:09 +0000
Subject: [PATCH 43/53] fix: writer waits for memory while holding the
 partitions the refresh needs

---
 monotone/engine/engine/write.c    |  3 ++
 monotone/runtime/lib/memory_mgr.h | 55 ++++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 20 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index d1ff61f..d24991d 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -168,6 +168,9 @@ engine_write(Engine* self, EventArg* events, int count)
 	Buf locks;
 	buf_init(&locks);
 
+	// memory limit
+	memory_mgr_wait(global()->memory_mgr);
+
 	Exception e;
 	if (enter(&e))
 	{
diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 89dd37a..cc0f1e4 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -82,6 +82,7 @@ memory_mgr_reset(MemoryMgr* self)
 	self->count          -= self->free_list_count;
 	self->free_list       = NULL;
 	self->free_list_count = 0;
+	cond_var_broadcast(&self->cond_var);
 	mutex_unlock(&self->lock);
 
 	while (page)
@@ -121,6 +122,34 @@ memory_mgr_pop_cache(MemoryMgr* self)
 	return page;
 }
 
+static inline bool
+memory_mgr_limit(MemoryMgr* self)
+{
+	if (likely(! self->limit) || self->free_list)
+		return false;
+	uint64_t used = self->count * (uint64_t)self->page_size;
+	return used >= self->limit_wm;
+}
+
+static inline void
+memory_mgr_wait(MemoryMgr* self)
+{
+	// wait for memory to become available
+	//
+	// this must be called without partition locks, since the refresh
+	// needs them to free the memory
+	if (likely(!self->limit || self->limit_error))
+		return;
+	mutex_lock(&self->lock);
+	if (unlikely(memory_mgr_limit(self)))
+	{
+		self->limit_hits++;
+		while (memory_mgr_limit(self))
+			cond_var_wait(&self->cond_var, &self->lock);
+	}
+	mutex_unlock(&self->lock);
+}
+
 static inline Page*
 memory_mgr_pop(MemoryMgr* self)
 {
@@ -133,26 +162,12 @@ memory_mgr_pop(MemoryMgr* self)
 		return page;
 	}
 
-	if (self->limit)
+	// blocking limit is handled by memory_mgr_wait()
+	if (unlikely(self->limit_error && memory_mgr_limit(self)))
 	{
-		uint64_t used = self->count * (uint64_t)self->page_size;
-		if (unlikely(used >= self->limit_wm))
-		{
-			self->limit_hits++;
-			if (self->limit_error)
-			{
-				mutex_unlock(&self->lock);
-				error("mm: memory limit reached");
-			}
-
-			// wait for free page
-			while (! self->free_list)
-				cond_var_wait(&self->cond_var, &self->lock);
-
-			auto page = memory_mgr_pop_cache(self);
-			mutex_unlock(&self->lock);
-			return page;
-		}
+		self->limit_hits++;
+		mutex_unlock(&self->lock);
+		error("mm: memory limit reached");
 	}
 
 	self->count++;
@@ -177,11 +192,11 @@ memory_mgr_push(MemoryMgr* self, Page* page, Page* page_tail, int count)
 		page_tail->next = self->free_list;
 		self->free_list = page;
 		self->free_list_count += count;
-		cond_var_broadcast(&self->cond_var);
 		page = NULL;
 	} else {
 		self->count -= count;
 	}
+	cond_var_broadcast(&self->cond_var);
 	mutex_unlock(&self->lock);
 
 	while (page)
-- 
2.43.0


From 2c39624214095acead33eb0b67498857521531ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:11 +0000
Subject: [PATCH 44/53] fix: partition over its watermark after a refresh is
 not refreshed again

---
 monotone/engine/engine/refresh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index 2e769f9..d850532 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -167,6 +167,14 @@ refresh_apply(Refresh* self)
 	part_unset(part, ID_INCOMPLETE);
 	part_set(part, ID);
 
+	// schedule refresh again, if the active memtable has reached the
+	// watermark in the meantime
+	if (!self->leftover && part_refresh_ready(part))
+	{
+		service_refresh(engine->service, part);
+		part->refresh = true;
+	}
+
 	ref_unlock(self->ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
 }
-- 
2.43.0


From 5d07939d3d88ab6a70a34946159b54b5f384426c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:10 +0000
Subject: [PATCH 45/53] fix: partition lost by a drop replayed again after its
 refresh

---
 monotone/engine/engine/op.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 91ca028..22873c7 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -430,15 +430,19 @@ engine_drop_replay(Engine* self, LogDrop* drop)
 
 		if (part->state != ID_NONE)
 		{
-			// skip if partition is newer then drop
-			if (part->index.lsn > lsn)
+			// skip if partition is newer then drop, or if the drop
+			// was applied to it before the refresh (see below)
+			if (part->index.lsn >= lsn)
 				continue;
 			engine_drop_files(self, part, ID|ID_CLOUD);
 			memtable_free(&part->memtable_a);
 			memtable_free(&part->memtable_b);
 		} else
 		{
+			// remaining events are not related to the drop, follow its
+			// lsn to avoid removing of them after the refresh
 			memtable_unset_range(part->memtable, min, max);
+			memtable_follow(part->memtable, lsn);
 		}
 		engine_drop_reference(self, ref->slice.min);
 	}
-- 
2.43.0


From b8b1906f0514e9dbdfdcdb6e3284b63f19e6ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:05 +0000
Subject: [PATCH 46/53] fix: signature of an S3 request written past its buffer

---
 monotone/cloud/s3/s3_request.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index e9da4e8..14efd21 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -25,7 +25,7 @@
 
 static void
 s3_request_encode_base64(uint8_t digest_raw[20],
-                         uint8_t digest[28])
+                         uint8_t digest[29])
 {
 	static const char* const chars =
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
@@ -117,7 +117,7 @@ s3_request_prepare(S3Request* self)
 	      digest, NULL);
 
 	// encode MAC using base64
-	uint8_t digest_base64[28];
+	uint8_t digest_base64[29];
 	s3_request_encode_base64(digest, digest_base64);
 
 	// prepare authorization header field
-- 
2.43.0


From 5e252c2002064937eea0f17441eb6cda20865310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:05 +0000
Subject: [PATCH 47/53] fix: error message of a failed S3 request reads past
 its arguments

---
 monotone/cloud/s3/s3_request.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index 14efd21..78f40e3 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -255,7 +255,7 @@ error:;
 	{
 		long http_code = 0;
 		curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-		error("s3: HTTP %d (%s)",
+		error("s3 %.*s: HTTP %d (%s)",
 		      str_size(&config->name),
 		      str_of(&config->name),
 		      (int)http_code,
-- 
2.43.0


From 87c0ba808084845cc5e37418107301ef65e09dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:05 +0000
Subject: [PATCH 48/53] fix: ALTER CLOUD accepts options with which the
 database cannot be opened

---
 monotone/cloud/cloud/cloud_mgr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/monotone/cloud/cloud/cloud_mgr.c b/monotone/cloud/cloud/cloud_mgr.c
index 0b9b22c..f85eba5 100644
--- a/monotone/cloud/cloud/cloud_mgr.c
+++ b/monotone/cloud/cloud/cloud_mgr.c
@@ -159,6 +159,13 @@ cloud_mgr_alter(CloudMgr* self, CloudConfig* config, int mask, bool if_exists)
 		return;
 	}
 
+	// ensure the cloud can be created with the new options, otherwise
+	// the database could not be opened again
+	auto copy = cloud_config_copy(cloud->config);
+	guard(cloud_config_free, copy);
+	cloud_config_alter(copy, config, mask);
+	cloud_free(cloud_allocate(cloud->iface, copy));
+
 	// update and save cloud config
 	cloud_config_alter(cloud->config, config, mask);
 	cloud_mgr_save(self);
-- 
2.43.0


From 60b69125130de15b3f9b21c7188c425276a49880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:05 +0000
Subject: [PATCH 49/53] fix: crash while a storage is detached from its cloud
 leaves it without the bucket

---
 monotone/engine/storage/storage_mgr.c | 57 ++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index bb25e5e..17bfd27 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -141,6 +141,19 @@ storage_set_cloud(StorageMgr* self, Storage* storage, bool attach)
 	cloud_ref(cloud);
 }
 
+static void
+storage_unset_cloud(Cloud* cloud, Source* source)
+{
+	// the storage is no longer using the cloud, errors are reported
+	// to the log
+	Exception e;
+	if (enter(&e)) {
+		cloud_detach(cloud, source);
+	}
+	if (leave(&e))
+	{ }
+}
+
 static Storage*
 storage_mgr_create_object(StorageMgr* self, Source* source, bool attach)
 {
@@ -239,15 +252,20 @@ storage_mgr_drop(StorageMgr* self, Str* name, bool if_exists)
 		error("storage '%.*s': has partitions", str_size(name),
 		      str_of(name));
 
-	if (storage->cloud)
-		cloud_detach(storage->cloud, storage->source);
-
 	list_unlink(&storage->link);
 	self->list_count--;
 	assert(self->list_count >= 0);
-	storage_free(storage);
+	guard(storage_free, storage);
 
 	storage_mgr_save(self);
+
+	// detach from the cloud after the config is saved, otherwise the storage
+	// can be recovered without its bucket
+	if (storage->cloud)
+	{
+		control_save_config();
+		storage_unset_cloud(storage->cloud, storage->source);
+	}
 }
 
 void
@@ -301,12 +319,9 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				      str_of(&source->name));
 		}
 
-		// ensure new cloud exists before applying any changes
+		// ensure new cloud exists and attached before applying any changes
 		if (! str_empty(&source->cloud))
-			storage_find_cloud(self, source);
-
-		if (storage->cloud)
-			cloud_detach(storage->cloud, storage->source);
+			cloud_attach(storage_find_cloud(self, source), storage->source);
 	}
 
 	source_alter(storage->source, source, mask);
@@ -314,11 +329,8 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 
 	if (mask & SOURCE_CLOUD)
 	{
-		if (storage->cloud)
-		{
-			cloud_unref(storage->cloud);
-			storage->cloud = NULL;
-		}
+		auto prev = storage->cloud;
+		storage->cloud = NULL;
 
 		list_foreach(&storage->list)
 		{
@@ -326,7 +338,7 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 			part->cloud = NULL;
 		}
 
-		storage_set_cloud(self, storage, true);
+		storage_set_cloud(self, storage, false);
 
 		if (storage->cloud)
 		{
@@ -336,6 +348,21 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				part->cloud = storage->cloud;
 			}
 		}
+
+		// detach from the previous cloud after the config is saved
+		if (prev)
+		{
+			if (prev != storage->cloud)
+			{
+				control_save_config();
+				storage_unset_cloud(prev, storage->source);
+
+				// clouds can share the same address
+				if (storage->cloud)
+					cloud_attach(storage->cloud, storage->source);
+			}
+			cloud_unref(prev);
+		}
 	}
 }
 
-- 
2.43.0


From 6d26b2101c9b92903cbdeb661cd6460e21d79282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:48 +0000
Subject: [PATCH 50/53] fix: wrong units of time: month, year and min

month and year were seven times too long, min was not recognized
---
 monotone/main/command/lex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 9f66620..aec43e7 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -44,7 +44,7 @@ static Keyword keywords[] =
 	{ KSEC,        "sec",          3},
 	{ KSEC,        "second",       6},
 	{ KSEC,        "seconds",      7},
-	{ KMIN,        "min",          2},
+	{ KMIN,        "min",          3},
 	{ KMIN,        "minute",       6},
 	{ KMIN,        "minutes",      7},
 	{ KHOUR,       "hr",           2},
@@ -161,10 +161,10 @@ lex_integer_mod(Lex* self, Token* value)
 		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
-- 
2.43.0


From 32ef47368b99436fa91b3dc469a1a0320988f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:17 +0000
Subject: [PATCH 51/53] fix: statement with several numbers in a row aborts the
 process

every number was read ahead to find its modificator, the numbers which follow
had no place in the backlog of the lexer
---
 monotone/main/command/lex.c | 40 +++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index aec43e7..35d9e40 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -132,9 +132,32 @@ lex_keywords(Lex* self, bool on)
 	self->keywords = on;
 }
 
+static bool
+lex_skip(Lex* self)
+{
+	// skip white spaces and comments
+	for (;;)
+	{
+		while (self->pos < self->end && isspace(*self->pos))
+			self->pos++;
+		// eof
+		if (unlikely(self->pos == self->end))
+			return false;
+		if (*self->pos != '#')
+			break;
+		while (self->pos < self->end && *self->pos != '\n')
+			self->pos++;
+	}
+	return true;
+}
+
 static void
 lex_integer_mod(Lex* self, Token* value)
 {
+	// value modificator is always a name, anything else is left unread
+	if (!lex_skip(self) || !isalpha(*self->pos))
+		return;
+
 	Token tk;
 	lex_next(self, &tk);
 	switch (tk.id) {
@@ -209,21 +232,8 @@ lex_next(Lex* self, Token* tk)
 	tk->id = KEOF;
 
 	// skip white spaces and comments
-	for (;;)
-	{
-		while (self->pos < self->end && isspace(*self->pos))
-			self->pos++;
-		// eof
-		if (unlikely(self->pos == self->end))
-			return;
-		if (*self->pos != '#')
-			break;
-		while (self->pos < self->end && *self->pos != '\n')
-			self->pos++;
-		// eof
-		if (self->pos == self->end)
-			return;
-	}
+	if (! lex_skip(self))
+		return;
 
 	// symbols
 	if (*self->pos != '\"' &&
-- 
2.43.0


From 73aaec431e9adfe7f3befe0cb46ebc41698e647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:27 +0000
Subject: [PATCH 52/53] fix: database cannot be opened when a setting contains
 a quote

strings were saved to the configuration file and shown without quotation
---
 monotone/runtime/lib/json.c | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index a1660f3..d552eea 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -53,6 +53,32 @@ json_next(Json* self, int n)
 	return self->json[self->pos];
 }
 
+hot static inline void
+json_read_string(Buf* self, const char* string, int size)
+{
+	// remove quotation of \" and \\, anything else is used as is
+	int quoted = 0;
+	for (int i = 0; i + 1 < size; i++)
+	{
+		if (string[i] == '\\' && (string[i + 1] == '"' || string[i + 1] == '\\'))
+		{
+			quoted++;
+			i++;
+		}
+	}
+	encode_raw(self, string, size - quoted);
+	if (likely(! quoted))
+		return;
+	auto to = (char*)self->position - (size - quoted);
+	for (int i = 0; i < size; i++)
+	{
+		if (i + 1 < size && string[i] == '\\' &&
+		    (string[i + 1] == '"' || string[i + 1] == '\\'))
+			i++;
+		*to++ = string[i];
+	}
+}
+
 hot static inline int
 json_read(Json* self, int skip)
 {
@@ -176,7 +202,7 @@ json_read(Json* self, int skip)
 		if (unlikely(self->pos > self->json_size))
 			return -1;
 		int size = self->pos - offset - 1;
-		encode_raw(data, self->json + offset, size);
+		json_read_string(data, self->json + offset, size);
 		return token;
 	}
 	case 'n':
@@ -311,12 +337,16 @@ json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 	}
 	case MN_STRINGV0 ... MN_STRING32:
 	{
-		// todo: quouting
 		char* value;
 		int   size;
 		data_read_raw(pos, &value, &size);
 		buf_write(data, "\"", 1);
-		buf_write(data, value, size);
+		for (int i = 0; i < size; i++)
+		{
+			if (value[i] == '"' || value[i] == '\\')
+				buf_write(data, "\\", 1);
+			buf_write(data, &value[i], 1);
+		}
 		buf_write(data, "\"", 1);
 		break;
 	}
-- 
2.43.0


From 300a853d8c225aea642648064257e347c72879e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:23 +0000
Subject: [PATCH 53/53] fix: integers out of range in statements are taken
 modulo 2^64

---
 monotone/main/command/lex.c | 43 ++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 35d9e40..46da8a4 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -151,6 +151,13 @@ lex_skip(Lex* self)
 	return true;
 }
 
+static inline void
+lex_integer_mul(Token* value, uint64_t by)
+{
+	if (unlikely(__builtin_mul_overflow(value->integer, by, &value->integer)))
+		error("integer is out of range");
+}
+
 static void
 lex_integer_mod(Lex* self, Token* value)
 {
@@ -166,53 +173,53 @@ lex_integer_mod(Lex* self, Token* value)
 		// do nothing (default resolution)
 		break;
 	case KMSEC:
-		value->integer *= 1000ULL;
+		lex_integer_mul(value, 1000ULL);
 		break;
 	case KSEC:
-		value->integer *= 1000ULL * 1000;
+		lex_integer_mul(value, 1000ULL * 1000);
 		break;
 	case KMIN:
-		value->integer *= 60ULL * 1000 * 1000;
+		lex_integer_mul(value, 60ULL * 1000 * 1000);
 		break;
 	case KHOUR:
-		value->integer *= 60ULL * 60 * 1000 * 1000;
+		lex_integer_mul(value, 60ULL * 60 * 1000 * 1000);
 		break;
 	case KDAY:
-		value->integer *= 24ULL * 60 * 60 * 1000 * 1000;
+		lex_integer_mul(value, 24ULL * 60 * 60 * 1000 * 1000);
 		break;
 	case KWEEK:
-		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
+		lex_integer_mul(value, 7ULL * 24 * 60 * 60 * 1000 * 1000);
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
+		lex_integer_mul(value, 30ULL * 24 * 60 * 60 * 1000 * 1000);
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
+		lex_integer_mul(value, 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000);
 		break;
 	// units
 	case KKB:
-		value->integer *= 1000ULL;
+		lex_integer_mul(value, 1000ULL);
 		break;
 	case KKIB:
-		value->integer *= 1024ULL;
+		lex_integer_mul(value, 1024ULL);
 		break;
 	case KMB:
-		value->integer *= 1000ULL * 1000;
+		lex_integer_mul(value, 1000ULL * 1000);
 		break;
 	case KMIB:
-		value->integer *= 1024ULL * 1024;
+		lex_integer_mul(value, 1024ULL * 1024);
 		break;
 	case KGB:
-		value->integer *= 1000ULL * 1000 * 1000;
+		lex_integer_mul(value, 1000ULL * 1000 * 1000);
 		break;
 	case KGIB:
-		value->integer *= 1024ULL * 1024 * 1024;
+		lex_integer_mul(value, 1024ULL * 1024 * 1024);
 		break;
 	case KTB:
-		value->integer *= 1000ULL * 1000 * 1000 * 1000;
+		lex_integer_mul(value, 1000ULL * 1000 * 1000 * 1000);
 		break;
 	case KTIB:
-		value->integer *= 1024ULL * 1024 * 1024 * 1024;
+		lex_integer_mul(value, 1024ULL * 1024 * 1024 * 1024);
 		break;
 	default:
 		lex_push(self, &tk);
@@ -263,7 +270,9 @@ lex_next(Lex* self, Token* tk)
 			}
 			if (! isdigit(*self->pos))
 				break;
-			tk->integer = (tk->integer * 10) + *self->pos - '0';
+			lex_integer_mul(tk, 10);
+			if (unlikely(__builtin_add_overflow(tk->integer, *self->pos - '0', &tk->integer)))
+				error("integer is out of range");
 			self->pos++;
 		}
 
-- 
2.43.0

