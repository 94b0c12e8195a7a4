From d39f48032a6734dc1f7f1e811808e5fd7dc7cd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 01/37] fix: LaG must not lock and revive an expired object

---
 src/memcache/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..cd5ced0 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -184,6 +184,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::LaGK:
     case binary_command::LaGKQ:
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( (binary_command::LaG <= cmd.command()) &&
                 (cmd.command() <= binary_command::LaGKQ) ) {
                 if( obj.locked() ) {
@@ -193,7 +194,6 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 obj.lock();
                 add_lock(k);
             }
-            if( obj.expired() ) return false;
             if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
                 obj.touch( cmd.exptime() );
                 if( ! m_slaves.empty() )
-- 
2.43.0


From e7f7b7a664799dcf68bed69634c9f4a5cd760d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 02/37] fix: identify lock owners by a per-connection number,
 not by the file descriptor

---
 src/memcache/object.cpp  |  2 +-
 src/memcache/object.hpp  |  6 +++---
 src/memcache/sockets.cpp | 14 +++++++++-----
 src/memcache/sockets.hpp |  1 +
 4 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..fd2b0a5 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -24,7 +24,7 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
 
 namespace yrmcds { namespace memcache {
 
-thread_local int g_context = -1;
+thread_local std::int64_t g_context = -1;
 
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a17cc41..6668a67 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -25,8 +25,8 @@ namespace yrmcds { namespace memcache {
 
 // Context for object locking.
 //
-// The context is in fact the file descriptor of a client connection.
-extern thread_local int g_context;
+// The context is a number unique to each client connection.
+extern thread_local std::int64_t g_context;
 
 
 // Purge temporary file contents from the page cache at dtor.
@@ -171,7 +171,7 @@ private:
     std::time_t m_exptime;
     std::uint64_t m_cas = 1;
     mutable unsigned int m_gc_old = 0;
-    int m_lock = -1;
+    std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
 };
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cd5ced0..fdbd7ba 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -5,7 +5,9 @@
 
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <sys/socket.h>
 #include <sys/types.h>
@@ -22,6 +24,10 @@ const char NOT_LOCKED[] = "CLIENT_ERROR object is not locked or not found\x0d\x0
 
 const std::memory_order relaxed = std::memory_order_relaxed;
 
+// File descriptors are reused before locks held by a closed connection
+// are released, so they can not identify lock owners.
+std::atomic<std::int64_t> g_next_context(0);
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -37,17 +43,15 @@ memcache_socket::memcache_socket(int fd,
       m_finder(finder),
       m_hash(hash),
       m_pending(0),
-      m_slaves_origin(slaves) {
+      m_slaves_origin(slaves),
+      m_context(g_next_context.fetch_add(1, relaxed)) {
     m_slaves.reserve(MAX_SLAVES);
     g_stats.curr_connections.fetch_add(1, relaxed);
     g_stats.total_connections.fetch_add(1, relaxed);
 
     m_recvjob = [this](cybozu::dynbuf& buf) {
         // set lock context for objects.
-        with_fd([](int fd) -> bool {
-            g_context = fd;
-            return true;
-        });
+        g_context = m_context;
 
         // load pending data
         if( ! m_pending.empty() ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index f591074..5453756 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -74,6 +74,7 @@ private:
     cybozu::dynbuf m_pending;
     const std::vector<repl_socket*>& m_slaves_origin;
     std::vector<repl_socket*> m_slaves;
+    const std::int64_t m_context;
     cybozu::worker::job m_recvjob;
     cybozu::worker::job m_sendjob;
     std::vector<std::reference_wrapper<const cybozu::hash_key>> m_locks;
-- 
2.43.0


From dbe71883c83b6b9c658e055f30cca215143d9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 03/37] fix: stopping a busy worker must not spin forever

---
 cybozu/worker.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 797a04f..db3ccaa 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -66,8 +66,7 @@ public:
     //
     // The thread will be joined automatically.
     void stop() {
-        m_exit = true;
-        m_running.store(true, std::memory_order_release);
+        m_exit.store(true, std::memory_order_release);
         notify();
         m_thread.join();
     }
@@ -81,9 +80,12 @@ public:
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
-            while( ! m_running.load(std::memory_order_acquire) );
+            // m_running may have been cleared after stop() was called.
+            while( ! m_running.load(std::memory_order_acquire) ) {
+                if( m_exit.load(std::memory_order_acquire) ) return;
+            }
 
-            if( m_exit ) return;
+            if( m_exit.load(std::memory_order_acquire) ) return;
 
             m_job(m_buffer);
             m_buffer.reset();
@@ -93,7 +95,7 @@ public:
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
-    bool m_exit;
+    std::atomic<bool> m_exit;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
-- 
2.43.0


From 7334c86224c34696bc939bcf487eae2b0c25e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 04/37] fix: counter acquire must not overflow

---
 src/counter/object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..3149d68 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,7 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        if( resources > maximum || m_consumption > maximum - resources )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From b5905918be22d566262ee04a5914c5e9f1346e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:25 +0000
Subject: [PATCH 05/37] fix: keep flags and expiration time of empty objects on
 slaves

---
 src/memcache/memcache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..1f33e33 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -868,10 +868,13 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
+        // slaves refer to these for objects having no data.
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
+        if( data_len == 0 )
+            return; // invalid
         break;
     case binary_command::Delete:
     case binary_command::DeleteQ:
-- 
2.43.0


From 2b49dbeebe24b1efb0da56abfbec029def066b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 06/37] fix: binary increment/decrement must initialize an
 expired object

---
 src/memcache/sockets.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index fdbd7ba..c282545 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <string>
 #include <sys/socket.h>
 #include <sys/types.h>
 
@@ -423,7 +424,17 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                const std::string v = std::to_string( cmd.initial() );
+                obj.set(v.data(), v.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -461,7 +472,17 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                const std::string v = std::to_string( cmd.initial() );
+                obj.set(v.data(), v.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
-- 
2.43.0


From 9c534273f0cc55130fc14c820fe43f89c4003090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 07/37] fix: prepend must clear the old data when secure_erase
 is enabled

---
 src/memcache/object.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index fd2b0a5..574df0c 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -116,14 +116,14 @@ void object::prepend(const char* p, std::size_t len) {
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
         } else {
-            cybozu::dynbuf buf(new_size);
+            cybozu::dynbuf buf(new_size, g_config.secure_erase());
             buf.append(p, len);
             m_file->read_contents(buf);
             m_file->clear();
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From a1e9d16e7e2ac6fe976e667482e49a02fdf6e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 08/37] fix: CAS unique values must not be reused after an
 object is re-created

---
 src/memcache/object.cpp | 19 ++++++++++++++-----
 src/memcache/object.hpp |  4 +++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 574df0c..808b69c 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,6 +4,7 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <fcntl.h>
 #include <limits>
@@ -26,6 +27,14 @@ namespace yrmcds { namespace memcache {
 
 thread_local std::int64_t g_context = -1;
 
+// The last CAS unique value.  Values must not be reused even after
+// an object is removed then re-created.
+static std::atomic<std::uint64_t> g_last_cas(0);
+
+std::uint64_t object::next_cas() noexcept {
+    return g_last_cas.fetch_add(1, std::memory_order_relaxed) + 1;
+}
+
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
     if( ::fdatasync(m_fd) == 0 )
@@ -61,7 +70,7 @@ void object::set(const char* p, std::size_t len,
                  std::uint32_t flags_, std::time_t exptime) {
     m_flags = flags_;
     m_exptime = exptime;
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     m_data.reset();
 
@@ -81,7 +90,7 @@ void object::set(const char* p, std::size_t len,
 }
 
 void object::append(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -103,7 +112,7 @@ void object::append(const char* p, std::size_t len) {
 }
 
 void object::prepend(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -146,7 +155,7 @@ std::uint64_t object::incr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
@@ -166,7 +175,7 @@ std::uint64_t object::decr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 6668a67..eee35b2 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -164,12 +164,14 @@ public:
     }
 
 private:
+    static std::uint64_t next_cas() noexcept;
+
     std::size_t m_length;
     cybozu::dynbuf m_data;
     std::unique_ptr<tempfile> m_file;
     std::uint32_t m_flags;
     std::time_t m_exptime;
-    std::uint64_t m_cas = 1;
+    std::uint64_t m_cas = next_cas();
     mutable unsigned int m_gc_old = 0;
     std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
-- 
2.43.0


From 07b07eec04a97d598f90de337e4185fa1da507a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 09/37] fix: GC must not forget flush_all requested for another
 time during the GC

---
 src/memcache/gc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..0f470b1 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -143,8 +143,9 @@ void gc_thread::gc() {
         }
     }
 
+    // do not lose flush_all requested while this GC was running.
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.flush_time.compare_exchange_strong(t, 0);
 }
 
 
-- 
2.43.0


From 00734acb0975d65cc7deaf3539b257d314e0038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 10/37] fix: text protocol numbers must not be signed or read
 over line breaks, and must not depend on the last error

---
 src/memcache/memcache.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 1f33e33..f24a483 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -53,9 +53,11 @@ inline UInt to_uint(const char* p, bool& result) {
     static_assert( sizeof(UInt) <= sizeof(unsigned long long),
                    "UInt is larger than unsigned long long" );
     result = false;
+    // strtoull accepts signs and skips white spaces including line breaks.
+    if( *p < '0' || '9' < *p ) return 0;
     char* end;
+    errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
-    if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
         errno == ERANGE ) return 0;
     char c = *end;
-- 
2.43.0


From 7b182ecb46b1c29001c32fc5eee6c2794c3bae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 11/37] fix: text cas must respect max_data_size

---
 src/memcache/sockets.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index c282545..89b7365 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -735,6 +735,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
+        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
+            r.error();
+            return;
+        }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
-- 
2.43.0


From 2d5092574e84f47c6f1fb2f675611cdf9352af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 12/37] fix: append and prepend must respect max_data_size

---
 src/memcache/sockets.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 89b7365..7c81de3 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -354,6 +354,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -381,6 +385,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -701,6 +709,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -723,6 +735,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > g_config.max_data_size() ) {
+                r.error();
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
-- 
2.43.0


From 9acf1a7f5d441cf2e8402a8fc535962ea0cbe905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 13/37] fix: deleting an expired object must not succeed

---
 src/memcache/sockets.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 7c81de3..64e2c2a 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -407,6 +407,13 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.quiet() )
+                    r.error( binary_status::NotFound );
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -866,6 +873,13 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.no_reply() )
+                    r.not_found();
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
-- 
2.43.0


From c930456eb99bcacd75758a2fc054b9ee44194144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 14/37] fix: expiration time must not wrap around on slaves

---
 src/memcache/object.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index eee35b2..47dc4b1 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -101,6 +101,9 @@ public:
     }
 
     std::uint32_t exptime() const noexcept {
+        // 0xffffffff has a special meaning in the binary protocol.
+        constexpr std::time_t max_exptime = 0xfffffffeL;
+        if( m_exptime > max_exptime ) return (std::uint32_t)max_exptime;
         return (std::uint32_t)m_exptime;
     }
 
-- 
2.43.0


From 7f2eca5a3ad01ce6a7de7e0041f705e2e6e91510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 15/37] fix: receive errors of a connection must not terminate
 the program

---
 cybozu/tcp.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index d6d099d..e3325e9 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -194,7 +194,10 @@ public:
                 n = ::recv(fd, p, max_recvsize, 0);
             } while( n == -1 && errno == EINTR );
 
-            return (n != -1) || (errno != ECONNRESET);
+            if( n != -1 ) return true;
+            // errors such as ETIMEDOUT are as fatal to the connection
+            // as ECONNRESET, but not to the program.
+            return errno == EAGAIN || errno == EWOULDBLOCK;
         });
 
         if( ! ret ) {
@@ -205,11 +208,8 @@ public:
             return recv_result::NONE;
         }
 
-        if( n == -1 ) {
-            if( errno == EAGAIN || errno == EWOULDBLOCK )
-                return recv_result::AGAIN;
-            throw_unix_error(errno, "recv");
-        }
+        if( n == -1 )
+            return recv_result::AGAIN;
 
         buf.consume(n);
         return recv_result::OK;
-- 
2.43.0


From 6a519cb4a71cebcf7888fe76b38f877ace771d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 16/37] fix: a slave must not use the reclaimed socket when the
 master connection is lost

---
 cybozu/reactor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cybozu/reactor.cpp b/cybozu/reactor.cpp
index 2ab8f7d..b3f2f15 100644
--- a/cybozu/reactor.cpp
+++ b/cybozu/reactor.cpp
@@ -74,6 +74,9 @@ void reactor::run(std::function<void(reactor& r)> callback, int interval) {
     m_running = true;
     while( m_running ) {
         poll();
+        // resources may have been invalidated to quit.  The callback
+        // must not reclaim them before the caller handles that.
+        if( ! m_running ) break;
         auto now = crn::steady_clock::now();
         auto diff = crn::duration_cast<crn::milliseconds>(now - last).count();
         if( diff > milli_interval ) {
-- 
2.43.0


From 50a28ee0232f9228c1698c9f5f03b1fd865ee861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:59 +0000
Subject: [PATCH 17/37] fix: a slave must notice that sending a heartbeat to
 the master failed

---
 src/memcache/handler.cpp | 5 ++++-
 src/memcache/sockets.hpp | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 509c07a..c391901 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -171,7 +171,10 @@ bool handler::on_slave_start() {
 void handler::on_slave_interval() {
     // ping to the master
     char c = '\0';
-    m_repl_client_socket->send(&c, sizeof(c), true);
+    if( ! m_repl_client_socket->send(&c, sizeof(c), true) ) {
+        cybozu::logger::warning() << "Failed to send a heartbeat to master.";
+        m_reactor.quit();
+    }
 }
 
 void handler::on_slave_end() {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 5453756..719e0b4 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -154,6 +154,13 @@ private:
     cybozu::dynbuf m_recvbuf;
 
     virtual bool on_readable(int) override final;
+    virtual bool on_writable(int fd) override final {
+        if( write_pending_data(fd) )
+            return true;
+        cybozu::logger::warning() << "Failed to send data to master.";
+        m_reactor->quit();
+        return invalidate();
+    }
     virtual bool on_hangup(int) override final {
         cybozu::logger::warning() << "The connection to master has hung up.";
         m_reactor->quit();
-- 
2.43.0


From 8b7574f0198f8f49d24c77cac30d96fa1b828399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 18/37] fix: receive errors of a replication connection must
 not terminate the program

---
 src/memcache/sockets.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 64e2c2a..ff6022a 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1022,7 +1022,10 @@ bool repl_socket::on_readable(int fd) {
                 cybozu::logger::info() << "The connection to the slave (" << addr << ") has been reset.";
                 return invalidate();
             }
-            cybozu::throw_unix_error(errno, "recv");
+            // errors such as ETIMEDOUT are as fatal to the connection
+            // as ECONNRESET, but not to the program.
+            cybozu::logger::warning() << "Failed to receive data from a slave: " << std::strerror(errno);
+            return invalidate();
         }
         if( n == 0 ) {
             std::string addr = "unknown address";
@@ -1071,7 +1074,9 @@ bool repl_client_socket::on_readable(int fd) {
                 m_reactor->quit();
                 return invalidate();
             }
-            cybozu::throw_unix_error(errno, "recv");
+            cybozu::logger::warning() << "Failed to receive data from master: " << std::strerror(errno);
+            m_reactor->quit();
+            return invalidate();
         }
         if( n == 0 ) {
             cybozu::logger::info() << "The connection to master has been closed.";
-- 
2.43.0


From d574a020cda524c8d9a3490477af99ec3b2d4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 19/37] fix: LaGKQ must respond with NotFound as documented

---
 src/memcache/sockets.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index ff6022a..20904f6 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -222,7 +222,8 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         std::tie(p, len) = cmd.key();
         if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) ) {
             g_stats.get_misses.fetch_add(1, relaxed);
-            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ )
+            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ ||
+                cmd.command() == binary_command::LaGKQ )
                 r.error( binary_status::NotFound );
         } else {
             g_stats.get_hits.fetch_add(1, relaxed);
-- 
2.43.0


From 204e46fb7f91a0eff7e2d3c45c99fefdb67c7fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:47 +0000
Subject: [PATCH 20/37] fix: a job posted before the worker thread runs must
 not be lost

---
 cybozu/worker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index db3ccaa..a2a4d34 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -75,7 +75,6 @@ public:
     void run() {
         while ( true ) {
             // wait a new job or an exit signal
-            m_running.store(false, std::memory_order_release);
             std::uint64_t i;
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
@@ -89,6 +88,10 @@ public:
 
             m_job(m_buffer);
             m_buffer.reset();
+
+            // this must not be done before the first job, or a job posted
+            // before this thread gets started would be lost.
+            m_running.store(false, std::memory_order_release);
         }
     }
 
-- 
2.43.0


From 368d0ac5c9b43f15fa43a1523e012a16fc805d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 21/37] fix: resources must be reclaimed even while workers are
 always busy

---
 cybozu/worker.hpp |  9 ++++++++-
 src/sync.hpp      | 31 +++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index a2a4d34..32207a9 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -29,7 +29,7 @@ public:
     // Constructor.
     // @bufsiz   The size of the internal buffer.
     worker(std::size_t bufsiz)
-        : m_running(false), m_exit(false),
+        : m_running(false), m_exit(false), m_jobs_done(0),
           m_event(eventfd(0, EFD_CLOEXEC)), m_buffer(bufsiz)
     {
         if( m_event == -1 )
@@ -54,6 +54,11 @@ public:
         return m_running.load(std::memory_order_acquire);
     }
 
+    // Return the number of jobs this worker thread has completed.
+    std::uint64_t jobs_done() const noexcept {
+        return m_jobs_done.load(std::memory_order_acquire);
+    }
+
     // Ask this worker thread to execute a new job.
     // @job_  A callback function to be executed by the worker thread.
     void post_job(job job_) {
@@ -88,6 +93,7 @@ public:
 
             m_job(m_buffer);
             m_buffer.reset();
+            m_jobs_done.fetch_add(1, std::memory_order_release);
 
             // this must not be done before the first job, or a job posted
             // before this thread gets started would be lost.
@@ -99,6 +105,7 @@ private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
     std::atomic<bool> m_exit;
+    std::atomic<std::uint64_t> m_jobs_done;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
diff --git a/src/sync.hpp b/src/sync.hpp
index 667c74f..4dee79f 100644
--- a/src/sync.hpp
+++ b/src/sync.hpp
@@ -8,7 +8,9 @@
 
 #include <cybozu/worker.hpp>
 
+#include <array>
 #include <bitset>
+#include <cstdint>
 #include <functional>
 #include <memory>
 #include <vector>
@@ -18,10 +20,21 @@ namespace yrmcds {
 class sync_request final {
 public:
     explicit sync_request(std::function<void()> callback):
-        m_callback(callback) {}
+        m_callback(callback), m_jobs() {}
 
     void set(int n) { m_flags[n] = true; }
 
+    // Remember that the worker is executing a job.
+    // @jobs  The number of jobs completed by the worker.
+    void set_busy(int n, std::uint64_t jobs) { m_jobs[n] = jobs; }
+
+    // Set the flag if the worker has completed the remembered job.
+    //
+    // Under continuous load, the worker may not be seen idle for long.
+    void set_if_done(int n, std::uint64_t jobs) {
+        if( m_jobs[n] != jobs ) set(n);
+    }
+
     bool check() {
         if( ! m_flags.all() ) return false;
         m_callback();
@@ -31,6 +44,7 @@ public:
 private:
     std::function<void()> m_callback;
     std::bitset<MAX_WORKERS> m_flags;
+    std::array<std::uint64_t, MAX_WORKERS> m_jobs;
 };
 
 
@@ -46,8 +60,12 @@ public:
     void add_request(std::unique_ptr<sync_request> req) {
         const std::size_t n = m_workers.size();
         for( std::size_t i = 0; i < n; ++i ) {
-            if( ! m_workers[i]->is_running() )
+            std::uint64_t jobs = m_workers[i]->jobs_done();
+            if( m_workers[i]->is_running() ) {
+                req->set_busy(i, jobs);
+            } else {
                 req->set(i);
+            }
         }
         for( std::size_t i = n; i < MAX_WORKERS; ++i )
             req->set(i);
@@ -58,9 +76,14 @@ public:
     void check() {
         const std::size_t n = m_workers.size();
         for( std::size_t i = 0; i < n; ++i ) {
-            if( ! m_workers[i]->is_running() ) {
-                for( auto& req: m_requests )
+            bool running = m_workers[i]->is_running();
+            std::uint64_t jobs = m_workers[i]->jobs_done();
+            for( auto& req: m_requests ) {
+                if( running ) {
+                    req->set_if_done(i, jobs);
+                } else {
                     req->set(i);
+                }
             }
         }
         for( auto it = m_requests.begin(); it != m_requests.end(); ) {
-- 
2.43.0


From ec06bd07f7bd8cb08010389996526416318d90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 22/37] fix: flush_all must not remove objects stored after it

---
 src/memcache/gc.cpp      |  9 ++++-----
 src/memcache/handler.cpp | 10 +++++++---
 src/memcache/object.cpp  |  1 +
 src/memcache/object.hpp  | 12 +++++++++---
 src/memcache/sockets.cpp |  4 ++--
 src/memcache/stats.cpp   | 12 ++++++++++++
 src/memcache/stats.hpp   |  7 ++++++-
 7 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 0f470b1..7b44bfe 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -52,8 +52,8 @@ void gc_thread::run() {
 }
 
 void gc_thread::gc() {
-    std::time_t t = g_stats.flush_time.load();
-    bool flush = (t != 0) && (std::time(nullptr) >= t);
+    std::uint64_t flush_count = g_stats.flush_count.load();
+    bool flush = flush_count != g_stats.gc_flush_count.load();
     unsigned int evict_age = 0;
     if( (! flush) &&
         (g_stats.used_memory.load(std::memory_order_relaxed) >
@@ -72,7 +72,7 @@ void gc_thread::gc() {
 
     auto pred =
         [this,flush,evict_age](const cybozu::hash_key& k, object& obj) ->bool {
-        if( flush && (! obj.locked()) ) {
+        if( obj.flushed() && (! obj.locked()) ) {
             if( ! m_slaves.empty() )
                 repl_delete(m_slaves, k);
             return true;
@@ -144,8 +144,7 @@ void gc_thread::gc() {
     }
 
     // do not lose flush_all requested while this GC was running.
-    if( flush )
-        g_stats.flush_time.compare_exchange_strong(t, 0);
+    g_stats.gc_flush_count.store(flush_count);
 }
 
 
diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index c391901..0707b63 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -33,8 +33,7 @@ bool handler::gc_ready(std::time_t now) {
         m_gc_thread = nullptr;
     }
 
-    std::time_t t = g_stats.flush_time.load(relaxed);
-    if( t != 0 && now >= t )
+    if( g_stats.flush_count.load() != g_stats.gc_flush_count.load() )
         return true;
 
     // run GC immediately if the heap is over used.
@@ -127,7 +126,12 @@ void handler::on_master_interval() {
         ++it;
     }
 
-    if( gc_ready(g_current_time.load(relaxed)) ) {
+    std::time_t now = g_current_time.load(relaxed);
+    std::time_t t = g_stats.flush_time.load();
+    if( t != 0 && now >= t && g_stats.flush_time.compare_exchange_strong(t, 0) )
+        g_stats.flush_count.fetch_add(1);
+
+    if( gc_ready(now) ) {
         m_gc_thread = std::unique_ptr<gc_thread>(
             new gc_thread(m_hash, m_slaves, m_new_slaves));
         m_new_slaves.clear();
diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 808b69c..5c1d28f 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -71,6 +71,7 @@ void object::set(const char* p, std::size_t len,
     m_flags = flags_;
     m_exptime = exptime;
     m_cas = next_cas();
+    m_flush_count = g_stats.flush_count.load();
     m_gc_old = 0;
     m_data.reset();
 
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 47dc4b1..8085bab 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -59,7 +59,8 @@ public:
     object(object&& rhs) noexcept:
         m_length(rhs.m_length), m_data(std::move(rhs.m_data)),
         m_file(std::move(rhs.m_file)), m_flags(rhs.m_flags),
-        m_exptime(rhs.m_exptime), m_cas(rhs.m_cas) {}
+        m_exptime(rhs.m_exptime), m_cas(rhs.m_cas),
+        m_flush_count(rhs.m_flush_count) {}
     object& operator=(const object&) = delete;
     object& operator=(object&&) = delete;
 
@@ -109,13 +110,17 @@ public:
 
     bool expired() const noexcept {
         if( locked() ) return false;
-        std::time_t t = g_stats.flush_time.load(std::memory_order_relaxed);
+        if( flushed() ) return true;
         std::time_t now = g_current_time.load(std::memory_order_relaxed);
-        if( t != 0 && t <= now ) return true;
         if( m_exptime == 0 ) return false;
         return m_exptime <= now;
     }
 
+    // Return `true` if this object was stored before the last flush_all.
+    bool flushed() const noexcept {
+        return m_flush_count != g_stats.flush_count.load();
+    }
+
     unsigned int age() const noexcept { return m_gc_old; }
 
     void survive(std::vector<file_flusher>& flushers) const {
@@ -175,6 +180,7 @@ private:
     std::uint32_t m_flags;
     std::time_t m_exptime;
     std::uint64_t m_cas = next_cas();
+    std::uint64_t m_flush_count = g_stats.flush_count.load();
     mutable unsigned int m_gc_old = 0;
     std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 20904f6..60d85d8 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -593,7 +593,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         break;
     case binary_command::Flush:
     case binary_command::FlushQ:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.flush( cmd.exptime() );
         if( ! cmd.quiet() )
             r.success();
         break;
@@ -982,7 +982,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         r.end();
         break;
     case text_command::FLUSH_ALL:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.flush( cmd.exptime() );
         if( ! cmd.no_reply() )
             r.ok();
         break;
diff --git a/src/memcache/stats.cpp b/src/memcache/stats.cpp
index 07a3cc4..d2cd84f 100644
--- a/src/memcache/stats.cpp
+++ b/src/memcache/stats.cpp
@@ -1,6 +1,7 @@
 // (C) 2013-2014 Cybozu.
 
 #include "stats.hpp"
+#include "../global.hpp"
 
 namespace yrmcds { namespace memcache {
 
@@ -39,6 +40,8 @@ void statistics::reset() noexcept {
     /* Realtime staticstics. */
     total_objects = 0;
     flush_time = 0;
+    flush_count = 0;
+    gc_flush_count = 0;
     curr_connections = 0;
     total_connections = 0;
     for( auto& v: text_ops )
@@ -52,4 +55,13 @@ void statistics::reset() noexcept {
     cas_badval = 0;
 }
 
+void statistics::flush(std::time_t t) noexcept {
+    if( t > g_current_time.load(std::memory_order_relaxed) ) {
+        flush_time.store(t);
+        return;
+    }
+    flush_time.store(0);
+    flush_count.fetch_add(1);
+}
+
 }} // namespace yrmcds::memcache
diff --git a/src/memcache/stats.hpp b/src/memcache/stats.hpp
index a50aef1..b5a0dfa 100644
--- a/src/memcache/stats.hpp
+++ b/src/memcache/stats.hpp
@@ -22,6 +22,9 @@ struct statistics {
     // Reset all counters.
     void reset() noexcept;
 
+    // Flush all the objects stored so far at `t`.
+    void flush(std::time_t t) noexcept;
+
     /* object counters.  Updated at every GC. */
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint32_t> objects;
@@ -57,7 +60,9 @@ struct statistics {
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint64_t> total_objects;
     alignas(CACHELINE_SIZE)
-    std::atomic<std::time_t> flush_time; // abused by "flush_all"
+    std::atomic<std::time_t> flush_time; // pending "flush_all"
+    std::atomic<std::uint64_t> flush_count;
+    std::atomic<std::uint64_t> gc_flush_count; // flush_count at the last GC
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint64_t> curr_connections;
     std::atomic<std::uint64_t> total_connections;
-- 
2.43.0


From 945dfdf923aade12f5d77b9dde7f968baf082368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:00 +0000
Subject: [PATCH 23/37] fix: responses to unknown commands must carry the
 opcode of the request

---
 src/counter/counter.cpp   | 3 ++-
 src/counter/counter.hpp   | 2 ++
 src/memcache/memcache.hpp | 5 ++++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/counter/counter.cpp b/src/counter/counter.cpp
index 3b84948..f63b3d9 100644
--- a/src/counter/counter.cpp
+++ b/src/counter/counter.cpp
@@ -53,6 +53,7 @@ void request::parse(const char* p, std::size_t len) noexcept {
     if( len < HEADER_SIZE + body_length ) return;  // incomplete
 
     m_command = (counter::command)*(const uint8_t*)(p + 1);
+    m_opcode = *(p + 1);
     m_flags = *(const uint8_t*)(p + 2);
     m_body_length = body_length;
     m_opaque = p + 8;
@@ -120,7 +121,7 @@ void request::parse(const char* p, std::size_t len) noexcept {
 inline void response::fill_header(char* header, counter::status status,
                                   std::uint32_t body_length) {
     header[0] = (char)RESPONSE_MAGIC;
-    header[1] = (char)m_request.command();
+    header[1] = m_request.opcode();
     header[2] = (char)status;
     header[3] = 0;
     cybozu::hton(body_length, header + 4);
diff --git a/src/counter/counter.hpp b/src/counter/counter.hpp
index a2d3e95..9788821 100644
--- a/src/counter/counter.hpp
+++ b/src/counter/counter.hpp
@@ -50,6 +50,7 @@ public:
 
     std::size_t length() const noexcept { return m_request_length; }
     counter::command command() const noexcept { return m_command; }
+    char opcode() const noexcept { return m_opcode; }
     std::uint8_t flags() const noexcept { return m_flags; }
     std::uint32_t body_length() const noexcept { return m_body_length; }
     const char* opaque() const noexcept { return m_opaque; }
@@ -63,6 +64,7 @@ private:
 
     std::size_t m_request_length = 0;
     counter::command m_command = counter::command::Unknown;
+    char m_opcode = 0;
     std::uint8_t m_flags = 0;
     std::uint32_t m_body_length = 0;
     const char* m_opaque = nullptr;
diff --git a/src/memcache/memcache.hpp b/src/memcache/memcache.hpp
index 37b6464..50242da 100644
--- a/src/memcache/memcache.hpp
+++ b/src/memcache/memcache.hpp
@@ -317,6 +317,9 @@ public:
     // Return `key`.
     item key() const noexcept { return m_key; }
 
+    // Return the opcode as is in the request.
+    char opcode() const noexcept { return m_p[1]; }
+
     // Return `opaque` sent with the request.
     const char* opaque() const noexcept { return m_p + 12; }
 
@@ -398,7 +401,7 @@ private:
                      std::uint32_t data_len, std::uint64_t cas,
                      binary_status status = binary_status::OK) const noexcept {
         buf[0] = '\x81';
-        buf[1] = (char)m_request.command();
+        buf[1] = m_request.opcode();
         cybozu::hton(key_len, buf+2);
         buf[4] = (char)extras_len;
         buf[5] = '\x00';
-- 
2.43.0


From 9808adfbbd7ab7f36d67e2432024860654d8de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 24/37] fix: send pending responses before closing upon quit

Text quit and binary QuitQ dropped responses that had not been sent yet.
---
 src/memcache/sockets.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 60d85d8..ccb0710 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -586,7 +586,8 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::QuitQ:
         unlock_all();
         if( cmd.quiet() ) {
-            invalidate_and_close();
+            // close after sending pending responses.
+            send_close(nullptr, 0);
         } else {
             r.quit();
         }
@@ -996,7 +997,8 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::QUIT:
         unlock_all();
-        invalidate_and_close();
+        // close after sending pending responses.
+        send_close(nullptr, 0);
         break;
     default:
         cybozu::logger::info() << "not implemented";
-- 
2.43.0


From b8407635f8b6a9057d2016560212d1d5467c0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 25/37] fix: locked objects must not keep others from being
 evicted

The age of a locked object, which is never evicted, could raise the age
required for eviction beyond that of all other objects forever.
---
 src/memcache/gc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 7b44bfe..93203f3 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -115,7 +115,10 @@ void gc_thread::gc() {
         m_used_memory += sizeof(cybozu::hash_key) + k.length() + sizeof(object);
         if( g_config.heap_data_limit() >= obj.size() )
             m_used_memory += obj.size();
-        m_oldest_age = std::max(m_oldest_age, obj.age());
+        // locked objects cannot be evicted, so they must not decide
+        // how old objects need to be for eviction.
+        if( ! obj.locked() )
+            m_oldest_age = std::max(m_oldest_age, obj.age());
         m_largest_object_size = std::max(m_largest_object_size, obj.size());
         if( ! m_new_slaves.empty() )
             repl_object(m_new_slaves, k, obj, false);
-- 
2.43.0


From 0ce7ac3ce808c50178317bc562d018942300b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 26/37] fix: a slave could keep objects removed on the master
 while it was joining

Workers executing a job and the GC running when a slave joins do not
know the slave, so objects removed by them remained on the slave if
they had been sent by other workers.  Let the slave drop what it
received before the initial replication begins.
---
 src/memcache/gc.cpp          |  6 ++++++
 src/memcache/replication.cpp | 12 ++++++++++++
 src/memcache/replication.hpp |  2 ++
 3 files changed, 20 insertions(+)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 93203f3..ee4806d 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -125,6 +125,12 @@ void gc_thread::gc() {
         return false;
     };
 
+    // New slaves have received updates but not all removals, because
+    // workers and the previous GC might not have known them.  Everything
+    // they should have is going to be sent from now on.
+    if( ! m_new_slaves.empty() )
+        repl_flush(m_new_slaves);
+
     // Putting the thread to sleep tens of microseconds with each loop is desired, but due to the precision of the timer,
     // it's not appropriate to sleep with each loop. The `initial_repl_sleep_delay_usec` is accumulated until it
     // exceeds 10000 microseconds (10 milliseconds), and then the thread is put to sleep all at once when this limit is exceeded.
diff --git a/src/memcache/replication.cpp b/src/memcache/replication.cpp
index 2ec94d0..1adddb3 100644
--- a/src/memcache/replication.cpp
+++ b/src/memcache/replication.cpp
@@ -81,6 +81,13 @@ void repl_delete(const std::vector<repl_socket*>& slaves,
         s->sendv(iov, 2, false);
 }
 
+void repl_flush(const std::vector<repl_socket*>& slaves) {
+    char header[BINARY_HEADER_SIZE];
+    fill_header(header, 0, 0, 0, binary_command::FlushQ);
+    for( cybozu::tcp_socket* s: slaves )
+        s->send(header, sizeof(header), false);
+}
+
 std::size_t repl_recv(const char* p, std::size_t len,
                       cybozu::hash_map<object>& hash) {
     std::size_t consumed = 0;
@@ -140,6 +147,11 @@ std::size_t repl_recv(const char* p, std::size_t len,
             ++ g_stats.repl_removed;
             hash.remove_nolock(cybozu::hash_key(key_data, key_len), nullptr);
             break;
+        case binary_command::FlushQ:
+            cybozu::logger::debug() << "repl: flush";
+            for( auto& bucket: hash )
+                bucket.clear_nolock();
+            break;
         default:
             cybozu::logger::error() << "Unknown replication command"
                                     << std::hex
diff --git a/src/memcache/replication.hpp b/src/memcache/replication.hpp
index 7e10b29..5c02181 100644
--- a/src/memcache/replication.hpp
+++ b/src/memcache/replication.hpp
@@ -23,6 +23,8 @@ void repl_touch(const std::vector<repl_socket*>& slaves,
 void repl_delete(const std::vector<repl_socket*>& slaves,
                  const cybozu::hash_key& key);
 
+void repl_flush(const std::vector<repl_socket*>& slaves);
+
 std::size_t repl_recv(const char* p, std::size_t len,
                       cybozu::hash_map<object>& hash);
 
-- 
2.43.0


From a49623e3e100ef90ab9b2c8f5b6299e70f902882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 27/37] fix: incr and decr left a copy of the value in released
 memory

With secure_erase, the temporary string made to parse the number was
released without being cleared, even if the value was not a number.
---
 src/memcache/object.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 5c1d28f..989291c 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -5,9 +5,12 @@
 #include "stats.hpp"
 
 #include <atomic>
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <fcntl.h>
 #include <limits>
+#include <stdexcept>
 #include <stdio.h>
 #include <string>
 #include <unistd.h>
@@ -15,8 +18,18 @@
 namespace {
 
 std::uint64_t to_uint64(const char* p, std::size_t len) {
-    unsigned long long ull = std::stoull( std::string(p, len) );
-    if( ull > std::numeric_limits<std::uint64_t>::max() )
+    // A terminated copy is needed.  Like other memory used by objects,
+    // it must be cleared if configured so.
+    cybozu::dynbuf buf(len + 1, yrmcds::g_config.secure_erase());
+    if( len > 0 )
+        buf.append(p, len);
+    buf.append("", 1);
+    char* end;
+    errno = 0;
+    unsigned long long ull = std::strtoull(buf.data(), &end, 10);
+    if( end == buf.data() )
+        throw std::invalid_argument("not a number");
+    if( errno == ERANGE || ull > std::numeric_limits<std::uint64_t>::max() )
         throw std::out_of_range("out of range for uint64");
     return static_cast<std::uint64_t>(ull);
 }
-- 
2.43.0


From 2a818f5853fe8c1025438d8f62039e2fc4019319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 28/37] fix: errors of a new connection must not terminate the
 program

---
 cybozu/tcp.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cybozu/tcp.cpp b/cybozu/tcp.cpp
index 0071325..c5d0fee 100644
--- a/cybozu/tcp.cpp
+++ b/cybozu/tcp.cpp
@@ -485,6 +485,24 @@ bool tcp_server_socket::on_readable(int fd) {
             }
             if( errno == EAGAIN || errno == EWOULDBLOCK )
                 break;
+            switch( errno ) {
+            case ENOBUFS:
+            case ENOMEM:
+                logger::error() << "accept: Out of memory.";
+                m_reactor->add_readable(*this);
+                return true;
+            case EPERM:
+            case EPROTO:
+            case ENETDOWN:
+            case ENOPROTOOPT:
+            case EHOSTDOWN:
+            case ENONET:
+            case EHOSTUNREACH:
+            case EOPNOTSUPP:
+            case ENETUNREACH:
+                // errors of the new connection.  See accept(2).
+                continue;
+            }
             throw_unix_error(errno, "accept");
         }
 
-- 
2.43.0


From 37d42f91485b5145d7d49d2084ec9341266c94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:12 +0000
Subject: [PATCH 29/37] fix: keep large objects in memory if temporary files
 cannot be created

---
 src/memcache/object.cpp | 49 +++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 989291c..d36cec4 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -13,6 +13,7 @@
 #include <stdexcept>
 #include <stdio.h>
 #include <string>
+#include <system_error>
 #include <unistd.h>
 
 namespace {
@@ -34,6 +35,20 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
     return static_cast<std::uint64_t>(ull);
 }
 
+// Create a temporary file for a large object.
+//
+// Return `nullptr` if no file can be created, for instance because there
+// are too many open files.  The object is then kept in memory.
+std::unique_ptr<yrmcds::tempfile> create_tempfile() {
+    try {
+        return std::unique_ptr<yrmcds::tempfile>(new yrmcds::tempfile);
+    } catch( const std::system_error& e ) {
+        cybozu::logger::error() << "Failed to create a temporary file: "
+                                << e.what();
+        return nullptr;
+    }
+}
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -59,8 +74,9 @@ object::object(const char* p, std::size_t len,
                std::uint32_t flags_, std::time_t exptime)
     : m_length(len), m_data(0, g_config.secure_erase()), m_file(nullptr),
       m_flags(flags_), m_exptime(exptime) {
-    if( len > g_config.heap_data_limit() ) {
-        m_file = std::unique_ptr<tempfile>(new tempfile);
+    if( len > g_config.heap_data_limit() )
+        m_file = create_tempfile();
+    if( m_file.get() != nullptr ) {
         m_file->write(p, len);
     } else {
         if( len > 0 )
@@ -90,13 +106,16 @@ void object::set(const char* p, std::size_t len,
 
     if( len > g_config.heap_data_limit() ) {
         if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
+            m_file = create_tempfile();
         } else {
             m_file->clear();
         }
-        m_file->write(p, len);
     } else {
         m_file = nullptr;
+    }
+    if( m_file.get() != nullptr ) {
+        m_file->write(p, len);
+    } else {
         if( len > 0 )
             m_data.append(p, len);
     }
@@ -111,11 +130,15 @@ void object::append(const char* p, std::size_t len) {
     std::size_t new_size = m_length + len;
     if( new_size > g_config.heap_data_limit() ) {
         if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
-            if( m_length > 0 )
-                m_file->write(m_data.data(), m_length);
-            m_data.reset();
-            m_file->write(p, len);
+            m_file = create_tempfile();
+            if( m_file.get() == nullptr ) {
+                m_data.append(p, len);
+            } else {
+                if( m_length > 0 )
+                    m_file->write(m_data.data(), m_length);
+                m_data.reset();
+                m_file->write(p, len);
+            }
         } else {
             m_file->write(p, len);
         }
@@ -131,9 +154,11 @@ void object::prepend(const char* p, std::size_t len) {
     if( len == 0 ) return;
 
     std::size_t new_size = m_length + len;
-    if( new_size > g_config.heap_data_limit() ) {
-        if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
+    bool has_file = (m_file.get() != nullptr);
+    if( ! has_file && new_size > g_config.heap_data_limit() )
+        m_file = create_tempfile();
+    if( m_file.get() != nullptr ) {
+        if( ! has_file ) {
             m_file->write(p, len);
             if( m_length > 0 )
                 m_file->write(m_data.data(), m_length);
-- 
2.43.0


From b5fb4944ad7e5d78c9247c65f41c062f81efdf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:32 +0000
Subject: [PATCH 30/37] fix: large objects kept in memory must count as used
 memory

---
 src/memcache/gc.cpp     | 2 +-
 src/memcache/object.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index ee4806d..a9319e1 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -113,7 +113,7 @@ void gc_thread::gc() {
             ++ m_objects_huge;
         }
         m_used_memory += sizeof(cybozu::hash_key) + k.length() + sizeof(object);
-        if( g_config.heap_data_limit() >= obj.size() )
+        if( ! obj.in_file() )
             m_used_memory += obj.size();
         // locked objects cannot be evicted, so they must not decide
         // how old objects need to be for eviction.
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index 8085bab..bd5b300 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -93,6 +93,11 @@ public:
         return m_file->length();
     }
 
+    // Return `true` if the data are in a temporary file, not in memory.
+    bool in_file() const noexcept {
+        return m_file.get() != nullptr;
+    }
+
     std::uint32_t flags() const noexcept {
         return m_flags;
     }
-- 
2.43.0


From dd4c9d000e3c809901b53da7f155c6de698ac8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 31/37] fix: do not pass null pointers to memcpy when appending
 nothing

---
 cybozu/dynbuf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cybozu/dynbuf.hpp b/cybozu/dynbuf.hpp
index 34ccbeb..8178e29 100644
--- a/cybozu/dynbuf.hpp
+++ b/cybozu/dynbuf.hpp
@@ -83,6 +83,8 @@ public:
     // @p    The pointer to the contents.
     // @len  The length of the contents.
     void append(const char* p, std::size_t len) {
+        // both pointers may be null when there is nothing to append.
+        if( len == 0 ) return;
         if( freebytes() < len )
             enlarge(len);
         std::memcpy(m_p+m_used, p, len);
-- 
2.43.0


From 358493a3a4cae68e8a98ff273080a9cb21af8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 32/37] fix: destruct garbage resources outside of the reactor
 thread

The destructor of a socket releases locks of the client and needs
to lock buckets for that.  A worker may keep a bucket locked while
it waits for the reactor to send data to a slow client.  If the
reactor thread waited for such a worker, the whole server stopped
forever and ignored even SIGTERM.
---
 cybozu/reactor.cpp |  1 +
 cybozu/reactor.hpp | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/cybozu/reactor.cpp b/cybozu/reactor.cpp
index b3f2f15..6130ed7 100644
--- a/cybozu/reactor.cpp
+++ b/cybozu/reactor.cpp
@@ -41,6 +41,7 @@ reactor::reactor():
 }
 
 reactor::~reactor() {
+    if( m_gc_thread.joinable() ) m_gc_thread.join();
     ::close(m_fd);
 }
 
diff --git a/cybozu/reactor.hpp b/cybozu/reactor.hpp
index da353e3..90327a7 100644
--- a/cybozu/reactor.hpp
+++ b/cybozu/reactor.hpp
@@ -13,6 +13,8 @@
 #include <memory>
 #include <stdexcept>
 #include <sys/epoll.h>
+#include <system_error>
+#include <thread>
 #include <unistd.h>
 #include <unordered_map>
 #include <vector>
@@ -298,7 +300,8 @@ public:
     }
 
     bool has_garbage() const noexcept {
-        return ! m_garbage.empty();
+        return ! m_garbage.empty() &&
+            m_gc_done.load(std::memory_order_acquire);
     }
 
     // Fix the garbage resources to be destructed at the next <gc>.
@@ -308,6 +311,8 @@ public:
     //
     // @return `false` if there are no garbage resources, `true` otherwise.
     bool fix_garbage() {
+        // the last garbage may still be being destructed.
+        if( ! m_gc_done.load(std::memory_order_acquire) ) return false;
         if( ! m_garbage_copy.empty() )
             throw std::logic_error("No gc() was called after fix_garbage()!");
         std::size_t n = m_garbage.size();
@@ -327,9 +332,25 @@ public:
     //
     // Destruct garbage resources fixed by <fix_garbage>.
     // Only the reactor thread can use this.
+    //
+    // Destructors may need to wait for other threads, and those threads
+    // may be waiting for the reactor thread.  Therefore, resources are
+    // destructed by another thread.
     void gc() {
-        logger::debug() << "reactor: collected garbage resources.";
-        m_garbage_copy.clear();
+        if( ! m_gc_done.load(std::memory_order_acquire) ) return;
+        if( m_garbage_copy.empty() ) return;
+        if( m_gc_thread.joinable() ) m_gc_thread.join();
+        m_gc_done.store(false, std::memory_order_relaxed);
+        auto destruct = [this]{
+            m_garbage_copy.clear();
+            logger::debug() << "reactor: collected garbage resources.";
+            m_gc_done.store(true, std::memory_order_release);
+        };
+        try {
+            m_gc_thread = std::thread(destruct);
+        } catch( const std::system_error& ) {
+            destruct();
+        }
     }
 
     // Remove a registered resource.
@@ -355,6 +376,8 @@ private:
     // pending destruction lists
     std::vector<std::unique_ptr<resource>> m_garbage;
     std::vector<std::unique_ptr<resource>> m_garbage_copy;
+    std::thread m_gc_thread;
+    std::atomic<bool> m_gc_done = true;
 
     void remove_resource(int fd);
     void poll();
-- 
2.43.0


From 7f7ca49a19623222e63334babe01b3e1227a9ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 33/37] fix: do not execute pipelined requests of closed
 connections

A worker went on with all requests it had received, for instance
megabytes of "keys" commands, although the connection had been
closed.  Such a worker delayed the termination of the server.
---
 src/counter/sockets.cpp  | 2 +-
 src/memcache/sockets.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..febf20d 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -42,7 +42,7 @@ counter_socket::counter_socket(int fd,
 
             const char* head = buf.data();
             std::size_t len = buf.size();
-            while( len > 0 ) {
+            while( len > 0 && valid() ) {
                 counter::request parser(head, len);
                 std::size_t c = parser.length();
                 if( c == 0 ) break;
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index ccb0710..8df3b7e 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -72,7 +72,7 @@ memcache_socket::memcache_socket(int fd,
 
             const char* head = buf.data();
             std::size_t len = buf.size();
-            while( len > 0 ) {
+            while( len > 0 && valid() ) {
                 if( mc::is_binary_request(head) ) {
                     mc::binary_request parser(head, len);
                     std::size_t c = parser.length();
-- 
2.43.0


From b9293f1b3ba42b73831841d281215537b5062abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 34/37] fix: failure to reopen the log file must not terminate
 the server

Logs go to the standard error then, until the file can be opened
at the next SIGHUP.
---
 cybozu/logger.hpp | 2 +-
 src/server.cpp    | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/cybozu/logger.hpp b/cybozu/logger.hpp
index f4daf3f..2156ce1 100644
--- a/cybozu/logger.hpp
+++ b/cybozu/logger.hpp
@@ -105,7 +105,7 @@ public:
     }
     void reopen() {
         lock_guard g(m_lock);
-        if( m_fd == STDERR_FILENO ) return;
+        if( m_path.empty() ) return;
         close_nolock();
         open_nolock(m_path);
     }
diff --git a/src/server.cpp b/src/server.cpp
index 9fdf23e..beedfc4 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -53,7 +53,14 @@ void server::serve() {
                                  handler->dump_stats();
                              break;
                          case SIGHUP:
-                             cybozu::logger::instance().reopen();
+                             try {
+                                 cybozu::logger::instance().reopen();
+                             } catch( const std::exception& e ) {
+                                 // now logging to stderr
+                                 cybozu::logger::error()
+                                     << "Failed to reopen the log file: "
+                                     << e.what();
+                             }
                              cybozu::logger::info() << "got SIGHUP.";
                              break;
                          case SIGQUIT:
-- 
2.43.0


From a07903d3240144d61a152f6ffc16a5b920233226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 35/37] fix: reject settings with trailing garbage instead of
 using a part of them

"max_data_size = 1.5M", "memory_limit = 10T" or "repl_buffer_size = 30M"
were taken as 1 MiB, 10 bytes and 30, respectively, and negative numbers for
initial_repl_sleep_delay_usec as huge numbers.
---
 cybozu/config_parser.hpp | 15 +++++++++++++--
 src/config.cpp           |  5 ++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/cybozu/config_parser.hpp b/cybozu/config_parser.hpp
index 30596cf..7229ddb 100644
--- a/cybozu/config_parser.hpp
+++ b/cybozu/config_parser.hpp
@@ -96,7 +96,12 @@ public:
     // @return An integer converted from the associated value.
     int get_as_int(const std::string& key) const {
         try {
-            return std::stoi(get(key));
+            const std::string& s = get(key);
+            std::size_t end;
+            int n = std::stoi(s, &end);
+            if( end != s.size() )
+                throw illegal_value(key);
+            return n;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
@@ -113,7 +118,13 @@ public:
     // @return An uint64_t integer converted from the associated value.
     std::uint64_t get_as_uint64(const std::string& key) const {
         try {
-            return std::stoull(get(key));
+            const std::string& s = get(key);
+            std::size_t end;
+            std::uint64_t n = std::stoull(s, &end);
+            // std::stoull accepts negative numbers
+            if( end != s.size() || s.find('-') != std::string::npos )
+                throw illegal_value(key);
+            return n;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
diff --git a/src/config.cpp b/src/config.cpp
index 2b4c12f..520e760 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -61,7 +61,10 @@ inline std::size_t parse_unit(std::string& s, const char* cmd) {
     }
     if( base != 1 )
         s.pop_back();
-    int n = std::stoi( s );
+    std::size_t end;
+    int n = std::stoi( s, &end );
+    if( end != s.size() )
+        throw yrmcds::config::bad_config(std::string("Bad value for ") + cmd);
     if( n < 1 )
         throw yrmcds::config::bad_config(cmd + std::string(" must be > 0"));
     return base * static_cast<std::size_t>(n);
-- 
2.43.0


From 40bca1fd45cb1f69adc1b50f6c2331566558c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 36/37] fix: reject repl_buffer_size that tcp_socket cannot
 have

A master with repl_buffer_size > 65536 terminated when a slave connected.
---
 src/config.cpp    | 3 +++
 src/constants.hpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/config.cpp b/src/config.cpp
index 520e760..e725d5c 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -207,6 +207,9 @@ void config::load(const std::string& path) {
         int bufs = cp.get_as_int(REPL_BUFSIZE);
         if( bufs < 1 )
             throw bad_config("repl_buffer_size must be > 0");
+        if( bufs > MAX_REPL_BUFSIZE )
+            throw bad_config("repl_buffer_size must be <= " +
+                             std::to_string(MAX_REPL_BUFSIZE));
         m_repl_bufsize = bufs;
     }
 
diff --git a/src/constants.hpp b/src/constants.hpp
index 9253d74..4ab915d 100644
--- a/src/constants.hpp
+++ b/src/constants.hpp
@@ -32,6 +32,7 @@ const std::size_t   WORKER_BUFSIZE      = 5 << 20; // 5 MiB
 const int           MAX_WORKERS         = 64;
 const std::size_t   MAX_REQUEST_LENGTH  = 30 << 20; // 30 MiB
 const int           MAX_SLAVES          = 5;
+const int           MAX_REPL_BUFSIZE    = 65536; // the limit of tcp_socket
 const int           MAX_CONSECUTIVE_GCS = 3;
 
 const char          VERSION[] = "yrmcds version 1.1.12";
-- 
2.43.0


From b7a47d147981b9e2b476e354842631a6d23ad4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 37/37] fix: a configuration file that cannot be read is an
 error

A directory, for instance, was taken as an empty file.
---
 cybozu/config_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cybozu/config_parser.cpp b/cybozu/config_parser.cpp
index e2088ee..dcc35da 100644
--- a/cybozu/config_parser.cpp
+++ b/cybozu/config_parser.cpp
@@ -51,6 +51,8 @@ void config_parser::load(const std::string& path) {
 
         set(key, value);
     }
+    if( is.bad() )
+        throw std::runtime_error("failed to read " + path);
 }
 
 } // namespace cybozu
-- 
2.43.0

