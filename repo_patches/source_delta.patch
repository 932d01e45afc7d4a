From 2e26abd49ac9985aa8114e0eb9af8449ad6cf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 01/24] fix: hash_table::insert must return position of the
 inserted entry

When insertion displaced other entries, position of the last displaced entry was returned,
so during the hash table expansion lookups could return an item of another key.
---
 src/cachelot/hash_table.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 3a9c9d2..1b949d8 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -190,6 +190,8 @@ namespace cachelot {
         size_type insert(size_type pos, const key_type key, hash_type hash, mapped_type value) noexcept {
             debug_assert(not threshold_reached()); debug_assert(hash != 0);
             entry_type entry(key, value);
+            // position where the new entry was placed (entries displaced by it may end up further)
+            bool placed = false; size_type placed_at = 0;
             // how far we from the desired position
             size_type lookup_distance = get_distance(pos, hash);
             while (not empty_at(pos)) {
@@ -199,6 +201,10 @@ namespace cachelot {
                     std::swap(hash, m_hashes[pos]);
                     swap(entry, entry_at(pos));
                     lookup_distance = existing_entry_distance;
+                    if (not placed) {
+                        placed = true;
+                        placed_at = pos;
+                    }
                 }
                 pos = inc_pos(pos);
                 lookup_distance += 1;
@@ -207,7 +213,7 @@ namespace cachelot {
             m_hashes[pos] = hash;
             std::swap(m_entries[pos], entry);
             m_size += 1;
-            return pos;
+            return placed ? placed_at : pos;
         }
 
         /// remove element pos given pos
-- 
2.43.0


From 1d46d27dd23d83d389345d1cb8a184aae8900e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 02/24] fix: avoid 32-bit overflow in hash_table::max_size for
 huge tables

---
 src/cachelot/hash_table.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/hash_table.h b/src/cachelot/hash_table.h
index 1b949d8..a4f74e4 100644
--- a/src/cachelot/hash_table.h
+++ b/src/cachelot/hash_table.h
@@ -281,7 +281,7 @@ namespace cachelot {
         constexpr bool empty() const noexcept { return m_size == 0; }
 
         /// returns max number of elements that can be stored in table
-        constexpr size_type max_size() const noexcept { return static_cast<size_type>(capacity() * max_load_factor_percent / 100); }
+        constexpr size_type max_size() const noexcept { return static_cast<size_type>(static_cast<uint64>(capacity()) * max_load_factor_percent / 100); }
 
     private:
         /// return position in table which element with given `hash` would occupy
-- 
2.43.0


From 28bfdc656e97ddb514a0ebfecdcd11fdb8c252e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 03/24] fix: accept every 20-digit number that fits uint64

Digits were compared independently, so numbers like 17999999999999999999 were rejected.
---
 src/cachelot/string_conv.h | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 5c18e9a..045f33c 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -219,6 +219,8 @@ namespace cachelot {
         inline uint64 str_to_big_unsigned(ConstIterator str, ConstIterator end, error_code & out_error) noexcept {
             // returned on error
             static constexpr uint64 NO_RESULT = std::numeric_limits<uint64>::max();
+            // the biggest uint64 number
+            static const char max_uint64_str[] = "18446744073709551615";
 
             const auto length = end - str;
 
@@ -238,26 +240,7 @@ namespace cachelot {
             switch (length) {
                 case 20: // in ASCII max uint64 number length is 20
                     // check against the biggest uint64 number - 18446744073709551615
-                    if (str[ 0] > '1' ||
-                        str[ 1] > '8' ||
-                        str[ 2] > '4' ||
-                        str[ 3] > '4' ||
-                        str[ 4] > '6' ||
-                        str[ 5] > '7' ||
-                        str[ 6] > '4' ||
-                        str[ 7] > '4' ||
-                        str[ 8] > '0' ||
-                        str[ 9] > '7' ||
-                        str[10] > '3' ||
-                        str[11] > '7' ||
-                        str[12] > '0' ||
-                        str[13] > '9' ||
-                        str[14] > '5' ||
-                        str[15] > '5' ||
-                        str[16] > '1' ||
-                        str[17] > '6' ||
-                        str[18] > '1' ||
-                        str[19] > '5' ) {
+                    if (std::lexicographical_compare(max_uint64_str, max_uint64_str + 20, str, end)) {
                         out_error = error::numeric_overflow;
                         return NO_RESULT;
                     }
-- 
2.43.0


From 4c09dad6306be8da9623f91a1aa6bf8b50880a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 04/24] fix: huge TTL must not wrap around and expire
 immediately

---
 src/cachelot/item.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index e02683e..d6aa982 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -183,7 +183,10 @@ namespace cachelot {
             if (s == infinite_TTL) {
                 m_expiration_time = expiration_time_point::max();
             } else {
-                m_expiration_time = clock::now() + s;
+                // saturate: too far in the future means never
+                const auto now = clock::now();
+                const seconds representable = expiration_time_point::max() - now;
+                m_expiration_time = (s < representable) ? now + s : expiration_time_point::max();
             }
         }
 
-- 
2.43.0


From 8e1115b76e43f41b03173918cbc0086d234a8130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 05/24] fix: keep exact expiration time of modified items

Re-evaluated TTL turned to zero (infinite) if the clock ticked while item was on the edge of its lifetime.
---
 src/cachelot/cache.h | 7 +++++--
 src/cachelot/item.h  | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 691644b..2676e87 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -519,7 +519,8 @@ namespace cachelot {
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
                 auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
                 if (memory != nullptr) {
-                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), old_item->ttl(), ++m_newest_timestamp);
+                    auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
+                    new_item->set_expiration_time(old_item->expiration_time());
                     ItemAutoDelete _item_uniq_ptr(this, new_item);
                     if (op == ExtendOperation::APPEND) {
                         new_item->assign_compose(old_item->value(), piece->value());
@@ -631,7 +632,9 @@ namespace cachelot {
             const auto new_ascii_value_length = int_to_str(new_int_value, new_ascii_value);
             // create new item to hold value including zero terminator
             ItemPtr new_item;
-            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), old_item->ttl());
+            const auto expiration_time = old_item->expiration_time();
+            new_item = create_item(old_item->key(), old_item->hash(), new_ascii_value_length, old_item->opaque_flags(), Item::infinite_TTL);
+            new_item->set_expiration_time(expiration_time);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
             replace_item_at(at, _item_uniq_ptr);
diff --git a/src/cachelot/item.h b/src/cachelot/item.h
index d6aa982..c2e2561 100644
--- a/src/cachelot/item.h
+++ b/src/cachelot/item.h
@@ -109,6 +109,9 @@ namespace cachelot {
             /// set new time to live
             void set_ttl(seconds secs) noexcept;
 
+            /// assign exact expiration time
+            void set_expiration_time(expiration_time_point t) noexcept { m_expiration_time = t; }
+
             /// check whether Item is expired
             bool is_expired() const noexcept { return m_expiration_time <= clock::now(); }
 
-- 
2.43.0


From efc68c6000a13047151fff192316c7c372dc1a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 06/24] fix: incr/decr must not use dict position obtained
 before the eviction

---
 src/cachelot/cache.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 2676e87..43934df 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -637,7 +637,13 @@ namespace cachelot {
             new_item->set_expiration_time(expiration_time);
             ItemAutoDelete _item_uniq_ptr(this, new_item);
             new_item->assign_value(slice(new_ascii_value, new_ascii_value_length));
-            replace_item_at(at, _item_uniq_ptr);
+            // item creation may have evicted other items and moved dict entries around, so look for the position again
+            tie(found, at) = m_dict.entry_for(new_item->key(), new_item->hash());
+            if (found) {
+                replace_item_at(at, _item_uniq_ptr);
+            } else {
+                insert_item_at(at, _item_uniq_ptr);
+            }
             return make_tuple(true, new_int_value);
         }
 
-- 
2.43.0


From c0cc618d553b633ea3035dc9872f23120bcff036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 07/24] fix: reject items that do not fit into the page

Allocator header was not taken into account, the biggest items overlapped with the next page.
Result of append / prepend was not checked at all.
---
 src/cachelot/cache.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 43934df..841bf5e 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -321,6 +321,9 @@ namespace cachelot {
              */
             tuple<bool, dict_type::iterator> retrieve_item(const slice key, const hash_type hash, bool readonly = false);
 
+            /// Biggest item that fits into the single page together with the allocator metadata
+            size_t max_item_size() const noexcept { return m_allocator.page_size - memalloc::header_size(); }
+
             class ItemAutoDelete {
                 Cache * m_cache;
                 Item * m_item;
@@ -516,8 +519,12 @@ namespace cachelot {
             if (found) {
                 auto old_item = at.value();
                 const size_t new_value_size = old_item->value().length() + piece->value().length();
+                const size_t size_required = Item::CalcSizeRequired(old_item->key(), new_value_size);
+                if (size_required > max_item_size()) {
+                    throw system_error(error::item_too_big);
+                }
                 // do not evict existing items to avoid accidentally free the `piece` or the `old_item`
-                auto memory = m_allocator.alloc_or_evict(Item::CalcSizeRequired(old_item->key(), new_value_size), false, [=](void *){});
+                auto memory = m_allocator.alloc_or_evict(size_required, false, [=](void *){});
                 if (memory != nullptr) {
                     auto new_item = new (memory) Item(old_item->key(), old_item->hash(), static_cast<uint32>(new_value_size), old_item->opaque_flags(), Item::infinite_TTL, ++m_newest_timestamp);
                     new_item->set_expiration_time(old_item->expiration_time());
@@ -654,7 +661,7 @@ namespace cachelot {
                 throw system_error(error::key_too_long);
             }
             const size_t size_required = Item::CalcSizeRequired(key, value_length);
-            if (size_required > m_allocator.page_size) {
+            if (size_required > max_item_size()) {
                 throw system_error(error::item_too_big);
             }
             const auto on_delete = [=](void * ptr) noexcept -> void {
-- 
2.43.0


From dc342948386bd262d1c7bce6fdbac385a63f617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:42 +0000
Subject: [PATCH 08/24] fix: do not lose items with a zero hash

---
 src/cachelot/cache.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 841bf5e..62757cd 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -321,6 +321,9 @@ namespace cachelot {
              */
             tuple<bool, dict_type::iterator> retrieve_item(const slice key, const hash_type hash, bool readonly = false);
 
+            /// Zero hash marks an empty slot of the dict, so it must be replaced with the other value
+            static constexpr hash_type non_zero(const hash_type hash) noexcept { return hash != 0 ? hash : 1; }
+
             /// Biggest item that fits into the single page together with the allocator metadata
             size_t max_item_size() const noexcept { return m_allocator.page_size - memalloc::header_size(); }
 
@@ -404,7 +407,7 @@ namespace cachelot {
 
         inline tuple<bool, Cache::dict_type::iterator> Cache::retrieve_item(const slice key, const hash_type hash, bool readonly) {
             bool found; iterator at;
-            tie(found, at) = m_dict.entry_for(key, hash, readonly);
+            tie(found, at) = m_dict.entry_for(key, non_zero(hash), readonly);
             if (found) {
                 ItemPtr item = at.value();
                 // validate item
@@ -429,7 +432,7 @@ namespace cachelot {
                 STAT_INCR(cache.get_hits, 1);
                 auto item = at.value();
                 debug_assert(item->key() == key);
-                debug_assert(item->hash() == hash);
+                debug_assert(item->hash() == non_zero(hash));
                 return item;
             } else {
                 STAT_INCR(cache.get_misses, 1);
@@ -674,7 +677,7 @@ namespace cachelot {
             };
             memory = m_allocator.alloc_or_evict(size_required, m_evictions_enabled, on_delete);
             if (memory != nullptr) {
-                auto item = new (memory) Item(key, hash, static_cast<uint32>(value_length), flags, keepalive, ++m_newest_timestamp);
+                auto item = new (memory) Item(key, non_zero(hash), static_cast<uint32>(value_length), flags, keepalive, ++m_newest_timestamp);
                 return item;
             } else {
                 throw system_error(error::out_of_memory);
-- 
2.43.0


From 7983200a7c86ede8bd9e7a6446f5a1468f0548da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 09/24] fix: page number calculation in arenas bigger than 4Gb

---
 src/cachelot/memalloc-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cachelot/memalloc-inl.h b/src/cachelot/memalloc-inl.h
index f9348ec..2864761 100644
--- a/src/cachelot/memalloc-inl.h
+++ b/src/cachelot/memalloc-inl.h
@@ -142,10 +142,10 @@ namespace cachelot {
             return u8_ptr >= arena_begin && u8_ptr < arena_end;
         }
     private:
-        unsigned page_no_from_addr(const void * const ptr) const noexcept {
+        size_t page_no_from_addr(const void * const ptr) const noexcept {
             debug_assert(valid_addr(ptr));
             auto ui8_ptr = reinterpret_cast<const uint8 * const>(ptr);
-            auto page_no = static_cast<unsigned>(ui8_ptr - arena_begin) >> log2_page_size;
+            auto page_no = static_cast<size_t>(ui8_ptr - arena_begin) >> log2_page_size;
             debug_assert(page_no < num_pages);
             return page_no;
         }
-- 
2.43.0


From 75c23bc5dfec8f54b6e6ec154620b67580642dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 10/24] fix: reject zero initial_dict_size

---
 src/cachelot/cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cachelot/cache.h b/src/cachelot/cache.h
index 62757cd..43d891f 100644
--- a/src/cachelot/cache.h
+++ b/src/cachelot/cache.h
@@ -378,6 +378,9 @@ namespace cachelot {
             if (memory_limit % mem_page_size != 0) {
                 throw std::invalid_argument("memory_limit must be divisible by mem_page_size");
             }
+            if (initial_dict_size == 0) {
+                throw std::invalid_argument("initial_dict_size must be non-zero");
+            }
             if (not ispow2(initial_dict_size)) {
                 throw std::invalid_argument("initial_dict_size must be power of 2");
             }
-- 
2.43.0


From fe4eb466766503cd61334bc5175ef18db9f29355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 11/24] fix: destructor of the moved-out Cache

---
 src/cachelot/dict.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index f7ccf4c..34f9129 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -201,7 +201,9 @@ namespace cachelot {
             if (m_secondary_tbl) {
                 m_secondary_tbl->remove_if(predicate);
             }
-            m_primary_tbl->remove_if(predicate);
+            if (m_primary_tbl) { // may be moved out
+                m_primary_tbl->remove_if(predicate);
+            }
         }
 
         /// @copydoc hash_table::contains
-- 
2.43.0


From fc9e35fbab73f8f03bbe40cf56c2b037f5e87b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 12/24] fix: C API calls must clear the error on success

---
 src/cachelot/c_api.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cachelot/c_api.cpp b/src/cachelot/c_api.cpp
index d16d06c..9570b0e 100644
--- a/src/cachelot/c_api.cpp
+++ b/src/cachelot/c_api.cpp
@@ -74,6 +74,7 @@ extern "C" {
     CachelotPtr cachelot_init(CachelotOptions opts, CachelotError * out_error) {
         try {
             cachelot_t * c = new cachelot_t{cache::Cache::Create(opts.memory_limit, opts.mem_page_size, opts.initial_dict_size, opts.enable_evictions)};
+            none_error(out_error);
             return c;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -97,6 +98,7 @@ extern "C" {
         try {
             auto new_item = c->cache.create_item(slice(k.key, k.keylen), k.hash, valuelen, 0, cache::Item::infinite_TTL);
             new_item->assign_value(slice(value, valuelen));
+            none_error(out_error);
             return reinterpret_cast<CachelotItemPtr>(new_item);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -292,6 +294,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -311,6 +314,7 @@ extern "C" {
             if (result != nullptr) {
                 *result = newval;
             }
+            none_error(out_error);
             return found;
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
@@ -326,6 +330,7 @@ extern "C" {
     void cachelot_flush_all(CachelotPtr c, CachelotError * out_error) {
         try {
             c->cache.do_flush_all();
+            none_error(out_error);
         } catch (const system_error & e) {
             system_error_to_err_struct(e, out_error);
         } catch(const std::exception & e) {
-- 
2.43.0


From c6107be0153611b1fa74413d4d59176941f7d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:43 +0000
Subject: [PATCH 13/24] fix: keep handling signals after the SIGUSR1

---
 src/server/main.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index e48c7af..615a2e8 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -187,18 +187,21 @@ int main(int argc, char * argv[]) {
         signals.add(SIGQUIT);
         signals.add(SIGUSR1);
 #endif
-        signals.async_wait([&reactor](const error_code& error, int signal_number) {
+        std::function<void (const error_code &, int)> on_signal = [&](const error_code& error, int signal_number) {
             if (error) { return; }
             switch (signal_number) {
 #if !defined(_MSC_VER)
             case SIGUSR1:
                 PrintStats();
+                // wait for the next signal
+                signals.async_wait(on_signal);
                 break;
 #endif
             default:
                 reactor.stop();
             }
-        });
+        };
+        signals.async_wait(on_signal);
 
         // Run reactor loop
         do {
-- 
2.43.0


From 1d00ff28930aac76ff7ad944a38ed95fe3d15b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:21 +0000
Subject: [PATCH 14/24] fix: process all pipelined requests and never modify
 buffer which is being sent

Only the first of requests received together was processed until more data came.
Next request was handled concurrently with the unfinished send, so the reply could be sent twice
or from the memory that was already freed.
---
 src/server/socket_stream.h | 48 ++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 3acc8ea..4dbe472 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -59,10 +59,14 @@ namespace cachelot { namespace net {
 
     private:
 
-        /// start asynchronous receive operation, call the Conversation::handle_data on complete
+        /// start asynchronous receive operation, process received data on complete
         void async_receive_some() noexcept;
 
-        /// start asynchronous send of the send buffer
+        /// call the Conversation::handle_data for every request in the receive buffer
+        /// then either send reply or receive more data
+        void process_received() noexcept;
+
+        /// start asynchronous send of the send buffer, continue to process received data on complete
         void async_send_all() noexcept;
 
         /// schedule arbitrary function into IO loop
@@ -145,21 +149,9 @@ namespace cachelot { namespace net {
         auto self = this->shared_from_this();
         m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
-                slice receive_result;
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-                    ConversationReply reply = handle_data(m_recv_buf, m_send_buf);
-                    self->m_recv_buf.compact();
-                    switch (reply) {
-                    case SEND_REPLY_AND_READ:
-                        self->async_send_all();
-                        // there is no `break` so we'll continue receive
-                    case READ_MORE:
-                        self->async_receive_some();
-                        break;
-                    case CLOSE_IMMEDIATELY:
-                        break;
-                    }
+                    self->process_received();
                 } else {
                     if (error == io_error::message_size) {
                         self->m_recv_buf.confirm_write(bytes_received);
@@ -170,6 +162,31 @@ namespace cachelot { namespace net {
     }
 
 
+    template <class Sock, class Conversation>
+    inline void stream_connection<Sock, Conversation>::process_received() noexcept {
+        while (m_recv_buf.non_read() > 0) {
+            const size_t non_read_before = m_recv_buf.non_read();
+            switch (handle_data(m_recv_buf, m_send_buf)) {
+            case SEND_REPLY_AND_READ:
+                // remaining requests (if any) will be processed as soon as reply is sent
+                async_send_all();
+                return;
+            case READ_MORE:
+                if (m_recv_buf.non_read() < non_read_before) {
+                    continue; // request was processed without reply, maybe there are more
+                }
+                m_recv_buf.compact();
+                async_receive_some();
+                return;
+            case CLOSE_IMMEDIATELY:
+                return;
+            }
+        }
+        m_recv_buf.compact();
+        async_receive_some();
+    }
+
+
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_send_all() noexcept {
         if (m_killed) { return; }
@@ -180,6 +197,7 @@ namespace cachelot { namespace net {
                     debug_assert(self->m_send_buf.non_read() == bytes_sent);
                     self->m_send_buf.confirm_read(bytes_sent);
                     self->m_send_buf.compact();
+                    self->process_received();
                 }
             });
     }
-- 
2.43.0


From 219be0608420a4ffa9b84d24fc182ede01ce20db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:21 +0000
Subject: [PATCH 15/24] fix: close connection instead of crash when receive
 buffer limit is exceeded

---
 src/server/socket_stream.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_stream.h b/src/server/socket_stream.h
index 4dbe472..fdb2439 100644
--- a/src/server/socket_stream.h
+++ b/src/server/socket_stream.h
@@ -147,7 +147,15 @@ namespace cachelot { namespace net {
     template <class Sock, class Conversation>
     inline void stream_connection<Sock, Conversation>::async_receive_some() noexcept {
         auto self = this->shared_from_this();
-        m_socket.async_read_some(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()),
+        char * recv_pos;
+        try {
+            recv_pos = m_recv_buf.begin_write();
+        } catch (const std::exception &) {
+            // request does not fit into the maximal buffer, drop the connection
+            close();
+            return;
+        }
+        m_socket.async_read_some(asio::buffer(recv_pos, m_recv_buf.available()),
             [=](const error_code error, const size_t bytes_received) {
                 if (not error) {
                     self->m_recv_buf.confirm_write(bytes_received);
-- 
2.43.0


From ebc452ad562cea259f5770fe910032684fa282e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:21 +0000
Subject: [PATCH 16/24] fix: discard UDP response header when there is no
 response

---
 src/server/memcached/conversation.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/memcached/conversation.h b/src/server/memcached/conversation.h
index 3eecc29..b007765 100644
--- a/src/server/memcached/conversation.h
+++ b/src/server/memcached/conversation.h
@@ -85,7 +85,12 @@ namespace cachelot {
                 auto w_savepoint = send_buf.write_savepoint();
                 try {
                     handle_udp_frame_header(recv_buf, send_buf);
-                    return handle_received_data(recv_buf, send_buf, cache_api);
+                    const auto reply = handle_received_data(recv_buf, send_buf, cache_api);
+                    if (reply != net::SEND_REPLY_AND_READ) {
+                        // there is nothing to send, discard the response header
+                        send_buf.rollback_write_transaction(w_savepoint);
+                    }
+                    return reply;
                 } catch (const std::exception & exc) {
                     send_buf.rollback_write_transaction(w_savepoint);
                     return net::READ_MORE;
-- 
2.43.0


From 45431c1fd8729d15a0c12ec7577479fa15688f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:21 +0000
Subject: [PATCH 17/24] fix: do not modify UDP send buffer while the reply is
 being sent

---
 src/server/socket_datagram.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index c97af8b..1edc542 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -90,9 +90,12 @@ namespace cachelot { namespace net {
                 if (not error) {
                     try {
                         if (handle_data(m_recv_buf, m_send_buf) == SEND_REPLY_AND_READ) {
+                            // we expect only one packet per datagram
+                            m_recv_buf.reset();
+                            // receive will be continued when the reply is sent
                             async_send_all(m_remote_endpoint);
+                            return;
                         }
-                        m_recv_buf.compact();
                     } catch (const std::exception &) { /* swallow exception */ }
                 } else {
                     if (error == io_error::operation_aborted) {
@@ -101,7 +104,7 @@ namespace cachelot { namespace net {
                     }
                 }
                 // we expect only one packet per datagram
-                m_recv_buf.read_all();
+                m_recv_buf.reset();
                 this->async_receive();
             });
     }
@@ -115,6 +118,9 @@ namespace cachelot { namespace net {
                 // even data was not sent completely
                 m_send_buf.confirm_read(need_to_send);
                 m_send_buf.compact();
+                if (m_socket.is_open()) {
+                    this->async_receive();
+                }
             });
     }
 
-- 
2.43.0


From 818718f69a968baa75844e8b2c8bead240fef92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:21 +0000
Subject: [PATCH 18/24] fix: receive UDP datagrams bigger than the initial
 buffer

---
 src/server/socket_datagram.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/socket_datagram.h b/src/server/socket_datagram.h
index 1edc542..d08b39c 100644
--- a/src/server/socket_datagram.h
+++ b/src/server/socket_datagram.h
@@ -64,6 +64,7 @@ namespace cachelot { namespace net {
         void async_send_all(const typename protocol_type::endpoint to) noexcept;
 
     private:
+        static constexpr size_t max_datagram_size = 65536;
         io_service & m_ios;
         socket_type m_socket;
         io_buffer m_recv_buf;
@@ -84,7 +85,7 @@ namespace cachelot { namespace net {
 
     template <class SocketType>
     inline void datagram_server<SocketType>::async_receive() noexcept {
-        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(), m_recv_buf.available()), m_remote_endpoint,
+        m_socket.async_receive_from(asio::buffer(m_recv_buf.begin_write(max_datagram_size), m_recv_buf.available()), m_remote_endpoint,
             [=] (const error_code error, size_t bytes_recvd) noexcept {
                 m_recv_buf.confirm_write(bytes_recvd);
                 if (not error) {
-- 
2.43.0


From a62841a2a78d68e53f40f06a326844f78b736029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:59 +0000
Subject: [PATCH 19/24] fix: exact ASCII length of 64-bit integers

---
 src/cachelot/string_conv.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 045f33c..302f953 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -181,17 +181,21 @@ namespace cachelot {
     template <typename UIntT,
               class = typename std::enable_if<std::is_unsigned<UIntT>::value>::type>
     inline size_t uint_ascii_length(UIntT number) noexcept {
-        if (number == 0) {
-            return 1;
+        size_t length = 1;
+        while (number >= 10) {
+            number /= 10;
+            length += 1;
         }
-        return static_cast<size_t>(log10(number)) + 1;
+        return length;
     }
 
     template <typename IntT,
               class = typename std::enable_if<std::is_signed<IntT>::value>::type>
     inline size_t int_ascii_length(IntT number) noexcept {
         const size_t minus_sign_len = (number < 0) ? 1 : 0;
-        auto unsigned_number = static_cast<typename internal::numeric<IntT>::unsigned_>(abs(number));
+        typedef typename internal::numeric<IntT>::unsigned_ UnsignedT;
+        // abs() is for int only and is not defined for the minimal value
+        const auto unsigned_number = static_cast<UnsignedT>((number < 0) ? 0 - static_cast<UnsignedT>(number) : number);
         return minus_sign_len + uint_ascii_length(unsigned_number);
     }
 
-- 
2.43.0


From 8bcf5897bc99689e2784c95706c24a866afebf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:59 +0000
Subject: [PATCH 20/24] fix: do not read past the end of an empty string when
 converting it to a signed integer

---
 src/cachelot/string_conv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cachelot/string_conv.h b/src/cachelot/string_conv.h
index 302f953..416472f 100644
--- a/src/cachelot/string_conv.h
+++ b/src/cachelot/string_conv.h
@@ -303,7 +303,7 @@ namespace cachelot {
             static constexpr int64 NO_RESULT = std::numeric_limits<int64>::max();
 
             int64 sign;
-            if (*str != '-') {
+            if (str == end || *str != '-') {
                 sign = 1;
             } else {
                 sign = -1;
-- 
2.43.0


From 0da521591609c40b49cf700d715f2163d15f46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:34 +0000
Subject: [PATCH 21/24] fix: refuse empty, negative and overflowing memory
 amounts

---
 src/server/main.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/main.cpp b/src/server/main.cpp
index 615a2e8..97c62b0 100644
--- a/src/server/main.cpp
+++ b/src/server/main.cpp
@@ -32,6 +32,9 @@ namespace  {
     void validate(boost::any& arg, const std::vector<std::string>& values, po_memory *, int) {
         po::validators::check_first_occurrence(arg);
         auto s = po::validators::get_single_string(values);
+        if (s.empty() || s[0] == '-') {
+            throw po::invalid_option_value(s);
+        }
         size_t units;
         switch (s[s.length()-1]) {
         case 'K':
@@ -51,10 +54,14 @@ namespace  {
         }
         size_t memory_amount;
         try {
-            memory_amount = boost::lexical_cast<size_t>(s) * units;
+            memory_amount = boost::lexical_cast<size_t>(s);
         } catch (const boost::bad_lexical_cast &) {
             throw po::invalid_option_value(s);
         }
+        if (memory_amount > std::numeric_limits<size_t>::max() / units) {
+            throw invalid_configuration("memory amount is too big");
+        }
+        memory_amount *= units;
         if (memory_amount == 0) {
             throw invalid_configuration("zero memory amount");
         }
-- 
2.43.0


From 45750ce066e55d77bd1a2025475c03fdb016b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:56 +0000
Subject: [PATCH 22/24] fix: do not reserve zero bytes for an empty value in
 the reply (debug assertion)

---
 src/server/memcached/proto_ascii.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/memcached/proto_ascii.cpp b/src/server/memcached/proto_ascii.cpp
index 6c145c2..23cda95 100644
--- a/src/server/memcached/proto_ascii.cpp
+++ b/src/server/memcached/proto_ascii.cpp
@@ -69,6 +69,9 @@ namespace cachelot {
 
         // Stream operator to serialize `slice`
         inline io_buffer & operator<<(io_buffer & buf, const slice value) {
+            if (value.empty()) {
+                return buf;
+            }
             auto dest = buf.begin_write(value.length());
             std::memcpy(dest, value.begin(), value.length());
             buf.confirm_write(value.length());
-- 
2.43.0


From 32b82ef878e846a9c213e70dc89310435e378e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:41 +0000
Subject: [PATCH 23/24] fix: a failed allocation of the grown hash table left
 the dict without its primary table

---
 src/cachelot/dict.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/cachelot/dict.h b/src/cachelot/dict.h
index 34f9129..11b48bd 100644
--- a/src/cachelot/dict.h
+++ b/src/cachelot/dict.h
@@ -289,17 +289,16 @@ namespace cachelot {
 
         void begin_expand() {
             debug_assert(not is_expanding());
-            m_expand_pos = 0;
-            m_primary_tbl.swap(m_secondary_tbl);
-            m_primary_tbl.reset(new hash_table_type(pow2(m_hashpower + 1)));
-            if (m_primary_tbl && m_primary_tbl->ok()) {
-                m_hashpower += 1;
-                rehash_some();
-            } else {
-                m_primary_tbl.swap(m_secondary_tbl);
-                m_secondary_tbl.reset(nullptr);
+            // allocation may throw, so touch nothing until the new table is ready
+            std::unique_ptr<hash_table_type> new_tbl(new hash_table_type(pow2(m_hashpower + 1)));
+            if (not new_tbl->ok()) {
                 throw std::bad_alloc();
             }
+            m_expand_pos = 0;
+            m_secondary_tbl = std::move(m_primary_tbl);
+            m_primary_tbl = std::move(new_tbl);
+            m_hashpower += 1;
+            rehash_some();
         }
 
         void end_expand() noexcept {
-- 
2.43.0


From 5d6fbcc8c23722e77a4c854548cb427c69fc34cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:41 +0000
Subject: [PATCH 24/24] fix: a failed realloc lost the content of the IO buffer

---
 src/server/io_buffer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/io_buffer.h b/src/server/io_buffer.h
index 4e3102a..fdab87c 100644
--- a/src/server/io_buffer.h
+++ b/src/server/io_buffer.h
@@ -161,8 +161,9 @@ namespace cachelot {
             // grow buffer
             const size_t new_capacity = capacity_advice(at_least);
             if (new_capacity - size() >= at_least) {
-                m_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
-                if (m_data != nullptr) {
+                char * new_data = reinterpret_cast<char *>(std::realloc(m_data, new_capacity));
+                if (new_data != nullptr) {
+                    m_data = new_data;
                     m_capacity = new_capacity;
                 } else {
                     throw std::bad_alloc();
-- 
2.43.0

