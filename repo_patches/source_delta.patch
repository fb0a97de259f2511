From 8f00d20de6109d6253137159a69734ea2a480075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:38 +0000
Subject: [PATCH 01/79] fix: grow and shrink bags by the size of their element
 type

The resize helper multiplied the capacity by sizeof(void*), so a bag of
larger elements (the listener entries of a timeline) overflowed its heap
block after more than 16 listeners or after unregistering all of them.
---
 lib/include/internal/bag.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/internal/bag.h b/lib/include/internal/bag.h
index e53d5fe..8b5bde3 100644
--- a/lib/include/internal/bag.h
+++ b/lib/include/internal/bag.h
@@ -29,7 +29,7 @@ HT_DECLS_BEGIN
     static HT_INLINE HT_Boolean \
     ht_bag##METHOD_SUFFIX##_resize_(HT_Bag##TYPE_SUFFIX* bag, size_t new_capacity) \
     { \
-        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(void*)); \
+        TYPE* ptr = (TYPE*)ht_realloc(bag->data, new_capacity * sizeof(TYPE)); \
         \
         if (ptr == NULL) \
         { \
-- 
2.43.0


From 023744cdf3808ccd79cd0fc5777d7a8373dbdbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:34 +0000
Subject: [PATCH 02/79] fix: tell listener groups apart by name, not by a
 32-bit hash of it

Two timelines whose listener group names have the same djb2 hash (for
example "Ab" and "BA") shared one group, so listeners of one received
the events of the other.
---
 .../internal/timeline_listener_container.h    |  4 +--
 lib/registry.c                                | 12 +++++---
 lib/timeline_listener.c                       | 29 ++++++++++++++-----
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/lib/include/internal/timeline_listener_container.h b/lib/include/internal/timeline_listener_container.h
index 106bfdc..b3d1581 100644
--- a/lib/include/internal/timeline_listener_container.h
+++ b/lib/include/internal/timeline_listener_container.h
@@ -9,9 +9,9 @@ typedef struct _HT_TimelineListenerContainer HT_TimelineListenerContainer;
 
 void ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* listeners, TEventPtr events, size_t size, HT_Boolean serialize_events);
 
-uint32_t ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* listeners);
+const char* ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* container);
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id);
+HT_ErrorCode ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name);
 
 void ht_timeline_listener_container_ref(HT_TimelineListenerContainer* container);
 
diff --git a/lib/registry.c b/lib/registry.c
index 1ba6a2e..9b9fc0c 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -1,7 +1,6 @@
 #include "hawktracer/alloc.h"
 #include "hawktracer/core_events.h"
 #include "internal/bag.h"
-#include "internal/hash.h"
 #include "internal/feature.h"
 #include "internal/registry.h"
 #include "internal/mutex.h"
@@ -144,12 +143,11 @@ HT_TimelineListenerContainer*
 ht_registry_find_listener_container(const char* name)
 {
     size_t i;
-    uint32_t id = djb2_hash(name);
 
     ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
-        if (ht_timeline_listener_container_get_id((HT_TimelineListenerContainer*)listeners_register.data[i]) == id)
+        if (strcmp(ht_timeline_listener_container_get_name((HT_TimelineListenerContainer*)listeners_register.data[i]), name) == 0)
         {
             HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
             ht_mutex_unlock(listeners_register_mutex);
@@ -172,7 +170,13 @@ ht_registry_register_listener_container(const char* name, HT_TimelineListenerCon
     }
 
     ht_mutex_lock(listeners_register_mutex);
-    ht_timeline_listener_container_set_id(container, djb2_hash(name));
+    error_code = ht_timeline_listener_container_set_name(container, name);
+    if (error_code != HT_ERR_OK)
+    {
+        ht_mutex_unlock(listeners_register_mutex);
+        return error_code;
+    }
+
     ht_timeline_listener_container_ref(container);
 
     error_code = ht_bag_void_ptr_add(&listeners_register, container);
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 1bdd207..5b27c5b 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -10,6 +10,7 @@
 #include "internal/system_info.h"
 
 #include <assert.h>
+#include <string.h>
 
 typedef struct
 {
@@ -25,7 +26,7 @@ struct _HT_TimelineListenerContainer
 {
     HT_BagListener entries;
     HT_Mutex* mutex;
-    uint32_t id;
+    char* name;
     uint32_t refcount;
 };
 
@@ -47,15 +48,28 @@ _ht_timeline_listener_container_unregister_all_listeners(
     ht_bag_listener_clear(&container->entries);
 }
 
-uint32_t
-ht_timeline_listener_container_get_id(HT_TimelineListenerContainer* container)
+const char*
+ht_timeline_listener_container_get_name(HT_TimelineListenerContainer* container)
 {
-    return container->id;
+    return container->name;
 }
 
-void ht_timeline_listener_container_set_id(HT_TimelineListenerContainer* container, uint32_t id)
+HT_ErrorCode
+ht_timeline_listener_container_set_name(HT_TimelineListenerContainer* container, const char* name)
 {
-    container->id = id;
+    size_t size = strlen(name) + 1;
+    char* name_copy = (char*)ht_alloc(size);
+
+    if (name_copy == NULL)
+    {
+        return HT_ERR_OUT_OF_MEMORY;
+    }
+
+    memcpy(name_copy, name, size);
+    ht_free(container->name);
+    container->name = name_copy;
+
+    return HT_ERR_OK;
 }
 
 void
@@ -90,7 +104,7 @@ ht_timeline_listener_container_create(void)
         goto error_create_mutex;
     }
 
-    container->id = 0;
+    container->name = NULL;
     container->refcount = 1;
     goto done;
 
@@ -127,6 +141,7 @@ ht_timeline_listener_container_unref(HT_TimelineListenerContainer* container)
         ht_mutex_unlock(container->mutex);
         ht_mutex_destroy(container->mutex);
 
+        ht_free(container->name);
         ht_free(container);
     }
     else
-- 
2.43.0


From d87a73a5fa1e88fb9f7032602b53b05400759805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:38 +0000
Subject: [PATCH 03/79] fix: do not lose the wake-up of
 ProtocolReader::wait_for_complete

The reader thread cleared _is_running and notified without holding the mutex,
so a waiter between its check and its wait slept forever. Also initialise
_is_running, which was read uninitialised when start() failed.
---
 parser/include/hawktracer/parser/protocol_reader.hpp | 2 +-
 parser/protocol_reader.cpp                           | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 819b0ec..c69c87a 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,7 +45,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
-    std::atomic_bool _is_running;
+    std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 4c4a7cd..0fe1cbe 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -105,8 +105,11 @@ void ProtocolReader::_read_events()
         _call_callbacks(event);
     }
 
-    _is_running = false;
-    _cv.notify_one();
+    {
+        std::lock_guard<std::mutex> l(_mtx_cv);
+        _is_running = false;
+    }
+    _cv.notify_all();
 }
 
 void ProtocolReader::_read_event(bool& is_error, Event& event, Event* base_event)
-- 
2.43.0


From ba6b85bc10038f24dec2092d65bde464f2c08d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:40 +0000
Subject: [PATCH 04/79] fix: stop reading at instances of unknown classes and
 malformed descriptions

An event of a class that was never described dereferenced a null class, and an
exception about a malformed class description left the reader thread, which
terminated the process.
---
 parser/event_klass.cpp     |  4 ++--
 parser/protocol_reader.cpp | 27 ++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/parser/event_klass.cpp b/parser/event_klass.cpp
index 3e39284..ba35633 100644
--- a/parser/event_klass.cpp
+++ b/parser/event_klass.cpp
@@ -81,7 +81,7 @@ FieldTypeId get_type_id(uint64_t type_size, HT_MKCREFLECT_Types_Ext data_type)
         break;
     case HT_MKCREFLECT_TYPES_EXT_STRUCT:
         return FieldTypeId::STRUCT;
-    default: assert(0); // TODO other types
+    default: // TODO other types
         throw std::runtime_error("invalid type id");
     }
 }
@@ -107,7 +107,7 @@ std::shared_ptr<const EventKlassField> EventKlass::_get_field(const char* name,
         {
             return field;
         }
-        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive)
+        else if (field->get_type_id() == FieldTypeId::STRUCT && recursive && field->get_klass())
         {
             auto base_field = field->get_klass()->get_field(name, recursive);
             if (base_field)
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 0fe1cbe..6e3b05f 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -6,6 +6,7 @@
 #include <cassert>
 #include <cstring>
 #include <cstdlib>
+#include <exception>
 
 namespace HawkTracer
 {
@@ -18,7 +19,15 @@ ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<St
     _flat_events(flat_events)
 {
     register_events_listener([this] (const Event& event) {
-        _klass_register->handle_register_events(event);
+        try
+        {
+            _klass_register->handle_register_events(event);
+        }
+        catch (const std::exception&)
+        {
+            // malformed class description, the rest of the stream can't be parsed
+            _is_running = false;
+        }
     });
 }
 
@@ -81,7 +90,13 @@ void ProtocolReader::_read_events()
             continue;
         }
 
-        Event event(_klass_register->get_klass(base_event.get_value<uint32_t>("klass_id")));
+        auto klass = _klass_register->get_klass(klass_id);
+        if (!klass)
+        {
+            break;
+        }
+
+        Event event(std::move(klass));
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -228,7 +243,13 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     else
     {
         bool is_error;
-        Event sub_event(_klass_register->get_klass(_klass_register->get_klass_id(field.get_type_name())));
+        auto klass = _klass_register->get_klass(field.get_type_name());
+        if (!klass)
+        {
+            return false;
+        }
+
+        Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
         if (_flat_events)
         {
-- 
2.43.0


From 05a7a06c6f3dd01615637014b75bd738e7b028e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:32 +0000
Subject: [PATCH 05/79] fix: reject classes that contain themselves instead of
 recursing forever

---
 .../hawktracer/parser/protocol_reader.hpp     |  1 +
 parser/klass_register.cpp                     | 33 +++++++++++++++++++
 parser/protocol_reader.cpp                    |  6 +++-
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index c69c87a..525f136 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -49,6 +49,7 @@ private:
     std::condition_variable _cv;
     std::mutex _mtx_cv;
     bool _flat_events;
+    size_t _nested_structs = 0;
     HT_Endianness _endianness = HT_ENDIANNESS_LITTLE;
 };
 
diff --git a/parser/klass_register.cpp b/parser/klass_register.cpp
index c5430a1..16e74a6 100644
--- a/parser/klass_register.cpp
+++ b/parser/klass_register.cpp
@@ -2,9 +2,38 @@
 #include "hawktracer/parser/event.hpp"
 #include "hawktracer/parser/make_unique.hpp"
 
+#include <stdexcept>
+#include <unordered_set>
+#include <vector>
+
 namespace HawkTracer {
 namespace parser {
 
+// Checks if klass has, directly or indirectly, a field of the class with given id
+static bool contains_klass(std::shared_ptr<const EventKlass> klass, HT_EventKlassId klass_id)
+{
+    std::unordered_set<const EventKlass*> visited;
+    std::vector<std::shared_ptr<const EventKlass>> to_visit { std::move(klass) };
+    while (!to_visit.empty())
+    {
+        auto current = std::move(to_visit.back());
+        to_visit.pop_back();
+        if (!current || !visited.insert(current.get()).second)
+        {
+            continue;
+        }
+        if (current->get_id() == klass_id)
+        {
+            return true;
+        }
+        for (const auto& field : current->get_fields())
+        {
+            to_visit.push_back(field->get_klass());
+        }
+    }
+    return false;
+}
+
 KlassRegister::KlassRegister()
 {
     auto base_event = make_unique<EventKlass>("HT_Event", to_underlying(WellKnownKlasses::EventKlass));
@@ -66,6 +95,10 @@ void KlassRegister::handle_register_events(const Event& event)
             if (type == HT_MKCREFLECT_TYPES_EXT_STRUCT)
             {
                 type_klass = get_klass(field_type);
+                if (contains_klass(type_klass, klass_id))
+                {
+                    throw std::runtime_error("class contains itself");
+                }
             }
 
             auto field = HawkTracer::parser::make_unique<EventKlassField>(
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 6e3b05f..e46f0e0 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -13,6 +13,9 @@ namespace HawkTracer
 namespace parser
 {
 
+// A class description can (directly or indirectly) refer to itself; reading an instance of such a class would never end.
+static const size_t MAX_NESTED_STRUCTS = 1024;
+
 ProtocolReader::ProtocolReader(KlassRegister* klass_register, std::unique_ptr<Stream> stream, bool flat_events) :
     _klass_register(klass_register),
     _stream(std::move(stream)),
@@ -97,6 +100,7 @@ void ProtocolReader::_read_events()
         }
 
         Event event(std::move(klass));
+        _nested_structs = 0;
         if (_flat_events)
         {
             _read_event(is_error, event, nullptr);
@@ -244,7 +248,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
     {
         bool is_error;
         auto klass = _klass_register->get_klass(field.get_type_name());
-        if (!klass)
+        if (!klass || ++_nested_structs > MAX_NESTED_STRUCTS)
         {
             return false;
         }
-- 
2.43.0


From 3b97c8d6de6086d8b40287aa65801cf114d554b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:42 +0000
Subject: [PATCH 06/79] fix: release values of half-read, duplicate and
 overwritten events in the parser

---
 parser/event.cpp                           | 53 ++++++++++++++--------
 parser/include/hawktracer/parser/event.hpp |  2 +-
 parser/protocol_reader.cpp                 |  7 ++-
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/parser/event.cpp b/parser/event.cpp
index 7e9dd12..033f760 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -70,26 +70,39 @@ void Event::Value::_swap(Value& other)
     std::swap(value, other.value);
 }
 
-Event::~Event()
+static void release_value(const EventKlassField* field, FieldType& value)
 {
-    for (const auto& value : _values)
+    if (field == nullptr)
     {
-        if (value.second.field == nullptr)
-        {
-            continue;
-        }
+        return;
+    }
 
-        switch (value.second.field->get_type_id())
-        {
-        case FieldTypeId::STRING:
-            free(value.second.value.f_STRING);
-            break;
-        case FieldTypeId::STRUCT:
-            delete value.second.value.f_EVENT;
-            break;
-        default:
-            break;
-        }
+    switch (field->get_type_id())
+    {
+    case FieldTypeId::STRING:
+        free(value.f_STRING);
+        break;
+    case FieldTypeId::STRUCT:
+        delete value.f_EVENT;
+        break;
+    default:
+        break;
+    }
+}
+
+Event& Event::operator=(Event other)
+{
+    std::swap(_values, other._values);
+    std::swap(_klass, other._klass);
+    std::swap(_timestamp, other._timestamp);
+    return *this;
+}
+
+Event::~Event()
+{
+    for (auto& value : _values)
+    {
+        release_value(value.second.field, value.second.value);
     }
 }
 
@@ -114,7 +127,11 @@ void Event::merge(Event event)
 
 void Event::set_value(const EventKlassField* field, FieldType value)
 {
-    _values.insert(std::make_pair(field->get_name(), Value(std::move(value), field)));
+    // the event owns the value, even if it already has a value of that name and keeps that one
+    if (!_values.insert(std::make_pair(field->get_name(), Value(value, field))).second)
+    {
+        release_value(field, value);
+    }
 
     if (field->get_name() == "timestamp")
     {
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index c96269c..280b3b1 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -37,7 +37,7 @@ public:
     {
     }
     Event(const Event& other) = default;
-    Event& operator=(const Event& other) = default;
+    Event& operator=(Event other);
     Event(Event&&) = default;
 
     ~Event();
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index e46f0e0..551a5ca 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -255,6 +255,11 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
 
         Event sub_event(std::move(klass));
         _read_event(is_error, sub_event, base_event);
+        if (is_error)
+        {
+            return false;
+        }
+
         if (_flat_events)
         {
             event->merge(std::move(sub_event));
@@ -263,7 +268,7 @@ bool ProtocolReader::_read_struct(FieldType& value, const EventKlassField& field
         {
             value.f_EVENT = new Event(std::move(sub_event));
         }
-        return !is_error;
+        return true;
     }
 }
 
-- 
2.43.0


From 11aebe5eda643adb46d84ea36e40086c728a4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:45 +0000
Subject: [PATCH 07/79] fix: report failed reads of a file stream

A read error (for example a directory given as the file name) left feof() unset,
so read_data() reported success forever and the reader never ended.
---
 parser/file_stream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index dc610e6..b8cdeb0 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -30,8 +30,7 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    fread(buff, 1, size, _file);
-    return !feof(_file);
+    return fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
-- 
2.43.0


From b13383128a1f3bb3c150824d767053e8400d5abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:50 +0000
Subject: [PATCH 08/79] fix: return bytes above 127 from
 TCPClientStream::read_byte as non-negative

They were sign extended, so the parser took them for the end of the stream.
---
 client_utils/tcp_client_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index b06546c..7759179 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -153,7 +153,7 @@ int TCPClientStream::read_byte()
     else
     {
         auto& buffer = _datas.front();
-        int b = buffer.second[buffer.first++];
+        int b = (unsigned char)buffer.second[buffer.first++];
         _pop_if_used();
         return b;
     }
-- 
2.43.0


From ed1fb77a9479877f377f1acc2a9b8421a738e536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:57 +0000
Subject: [PATCH 09/79] fix: make stopping a TCP client stream reliable

stop() closed the socket under the receiving thread, which does not wake it up
from recv(), so joining it hung until the server sent something; the disconnect
was signalled without the mutex, so a reader could miss it and wait forever;
and starting again after the server had hung up destroyed a joinable thread.
---
 .../client_utils/tcp_client_stream.hpp        |  1 +
 client_utils/tcp_client_stream.cpp            | 48 ++++++++++++++-----
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
index 54b6135..2069aa8 100644
--- a/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
+++ b/client_utils/include/hawktracer/client_utils/tcp_client_stream.hpp
@@ -32,6 +32,7 @@ public:
 
 private:
     void _run();
+    void _close();
 
     bool _wait_for_data(std::unique_lock<std::mutex>& l);
     void _pop_if_used() { if (_datas.front().second.size() == _datas.front().first) { _datas.pop(); } }
diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 7759179..8b1d73a 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -6,6 +6,7 @@
 #pragma comment(lib, "Ws2_32.lib")
 #else
 #include <arpa/inet.h>
+#include <sys/socket.h>
 #include <unistd.h>
 #endif
 #include <cstring>
@@ -25,6 +26,15 @@ static int close_socket(int sock_fd)
 #endif
 }
 
+static int shutdown_socket(int sock_fd)
+{
+#ifdef _WIN32
+    return shutdown(sock_fd, SD_BOTH);
+#else
+    return shutdown(sock_fd, SHUT_RDWR);
+#endif
+}
+
 TCPClientStream::TCPClientStream(const std::string& ip_address, uint16_t port, bool wait_for_server) :
     _sock_fd(-1),
     _ip_address(ip_address),
@@ -40,10 +50,7 @@ TCPClientStream::~TCPClientStream()
 
 bool TCPClientStream::start()
 {
-    if (is_connected())
-    {
-        stop();
-    }
+    stop();
 
 #ifdef _WIN32
     WSAData wsa_data;
@@ -89,20 +96,38 @@ bool TCPClientStream::start()
 
 void TCPClientStream::stop()
 {
-    if (is_connected())
     {
-        close_socket(_sock_fd);
-        _sock_fd = -1;
+        // wakes up the receiving thread; closing the socket wouldn't
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            shutdown_socket(_sock_fd);
+        }
+    }
+
+    if (_thread.joinable())
+    {
+        _thread.join();
     }
 
+    _close();
+
 #ifdef _WIN32
     WSACleanup();
 #endif
+}
 
-    if (_thread.joinable())
+void TCPClientStream::_close()
+{
     {
-        _thread.join();
+        std::lock_guard<std::mutex> l(_datas_mtx);
+        if (is_connected())
+        {
+            close_socket(_sock_fd);
+            _sock_fd = -1;
+        }
     }
+    _datas_cv.notify_all();
 }
 
 void TCPClientStream::_run()
@@ -115,8 +140,7 @@ void TCPClientStream::_run()
         
         if (size == 0 || size == -1)
         {
-            close_socket(_sock_fd);
-            _sock_fd = -1;
+            _close();
         }
         else if (size > 0)
         {
@@ -127,8 +151,6 @@ void TCPClientStream::_run()
             _datas_cv.notify_one();
         }
     }
-
-    _datas_cv.notify_one();
 }
 
 bool TCPClientStream::is_connected() const
-- 
2.43.0


From 31a62ab05ee11f28ac80e1137865746d681c01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:02 +0000
Subject: [PATCH 10/79] fix: do not wait for more data when stopping a reader
 of a continuous stream

---
 parser/protocol_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 551a5ca..bbfa5d9 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -59,6 +59,11 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
+    if (_stream->is_continuous())
+    {
+        // the reading thread might be waiting for data which never comes
+        _stream->stop();
+    }
     if (_thread.joinable())
     {
         _thread.join();
-- 
2.43.0


From 49991a68b49480d7d344802d105c6742ae297e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 11/79] fix: serialize a missing string as an empty one

It was written as no bytes at all, so the reader took the following field for
the string and lost track of the stream.
---
 lib/include/hawktracer/event_macros.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index 4c3618b..fb5d454 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -16,7 +16,7 @@
 #define HT_EVENT_RUNTIME_SIZEOF_INTEGER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_POINTER(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
 #define HT_EVENT_RUNTIME_SIZEOF_DOUBLE(VAR_NAME, FIELD, C_TYPE) sizeof(VAR_NAME->FIELD)
-#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 0)
+#define HT_EVENT_RUNTIME_SIZEOF_STRING(VAR_NAME, FIELD, C_TYPE) (VAR_NAME->FIELD ? strlen(VAR_NAME->FIELD) + 1 : 1)
 #define HT_EVENT_RUNTIME_SIZEOF__(VAR_NAME, DATA_TYPE, C_TYPE, FIELD, ...) +HT_EVENT_RUNTIME_SIZEOF_##DATA_TYPE(VAR_NAME, FIELD, C_TYPE)
 #define HT_EVENT_RUNTIME_SIZEOF_(...) MKCREFLECT_EXPAND_(HT_EVENT_RUNTIME_SIZEOF__(__VA_ARGS__, 0))
 #define HT_EVENT_RUNTIME_SIZEOF(X, USER_DATA) HT_EVENT_RUNTIME_SIZEOF_(USER_DATA, MKCREFLECT_EXPAND_VA_ X)
@@ -28,8 +28,8 @@
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_STRING(C_TYPE, FIELD) do {\
-    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 0; \
-    memcpy(buffer + offset, VAR_NAME->FIELD, len); \
+    size_t len = (VAR_NAME->FIELD) ? strlen(VAR_NAME->FIELD) + 1 : 1; \
+    memcpy(buffer + offset, (VAR_NAME->FIELD) ? VAR_NAME->FIELD : "", len); \
     offset += len; \
 } while (0);
 #define HT_EVENT_RUNTIME_SERIALIZE__(DATA_TYPE, C_TYPE, FIELD, ...) HT_EVENT_RUNTIME_SERIALIZE_##DATA_TYPE(C_TYPE, FIELD)
-- 
2.43.0


From aff5d53ec4de0cbef4a049515e78dad3d370a2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:59 +0000
Subject: [PATCH 12/79] fix: serialize struct fields after the fields preceding
 them

Every struct field was written at the start of the buffer, over the base class.
---
 lib/include/hawktracer/event_macros.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/hawktracer/event_macros.h b/lib/include/hawktracer/event_macros.h
index fb5d454..f4f9028 100644
--- a/lib/include/hawktracer/event_macros.h
+++ b/lib/include/hawktracer/event_macros.h
@@ -23,7 +23,7 @@
 
 #define HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD) memcpy(buffer + offset, (char*)&VAR_NAME->FIELD, sizeof(VAR_NAME->FIELD)), offset += sizeof(VAR_NAME->FIELD);
 
-#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer);
+#define HT_EVENT_RUNTIME_SERIALIZE_STRUCT(C_TYPE, FIELD) offset += HT_EVENT_SERIALIZE_FUNCTION(C_TYPE)(((HT_Event*)&VAR_NAME->FIELD), buffer + offset);
 #define HT_EVENT_RUNTIME_SERIALIZE_INTEGER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_POINTER(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
 #define HT_EVENT_RUNTIME_SERIALIZE_DOUBLE(C_TYPE, FIELD) HT_EVENT_RUNTIME_SERIALIZE_BASE_TYPE_(C_TYPE, FIELD)
-- 
2.43.0


From 30226bf0fe70829530bab2b82083b7ff384da44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:36 +0000
Subject: [PATCH 13/79] fix: keep class descriptions inside the metadata buffer

The free space was compared with the serialized size even when the raw event is
copied, and descriptions larger than the buffer were written past its end.
---
 lib/registry.c | 47 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 9b9fc0c..62575de 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -227,35 +227,54 @@ _ht_registry_init_event_klass_field_info_event(HT_EventKlass* klass, size_t fiel
 }
 
 static size_t
-_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+_ht_registry_push_event_to_listener(HT_Event* event, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
 {
-    size_t j;
+    HT_EventKlass* klass = HT_EVENT_GET_KLASS(event);
+    size_t event_size = serialize ? klass->get_size(event) : klass->type_info->size;
     size_t total_size = 0;
-    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
-    _ht_registry_init_event_klass_info_event(klass, &event);
 
-    if (ht_HT_EventKlassInfoEvent_get_size(HT_EVENT(&event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
+    if (event_size > REGISTRY_LISETNER_BUFF_SIZE - *data_pos && *data_pos > 0)
     {
         callback(data, *data_pos, serialize, listener);
         total_size += *data_pos;
         *data_pos = 0;
     }
 
-    *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&event), data + *data_pos, serialize);
+    if (event_size > REGISTRY_LISETNER_BUFF_SIZE)
+    {
+        HT_Byte* buffer = (HT_Byte*)ht_alloc(event_size);
+        if (buffer != NULL)
+        {
+            ht_event_utils_serialize_event_to_buffer(event, buffer, serialize);
+            callback(buffer, event_size, serialize, listener);
+            total_size += event_size;
+            ht_free(buffer);
+        }
+    }
+    else
+    {
+        *data_pos += ht_event_utils_serialize_event_to_buffer(event, data + *data_pos, serialize);
+    }
+
+    return total_size;
+}
+
+static size_t
+_ht_registry_push_class_to_listener(HT_EventKlass* klass, HT_Byte* data, size_t* data_pos, HT_TimelineListenerCallback callback, void* listener, HT_Boolean serialize)
+{
+    size_t j;
+    size_t total_size = 0;
+    HT_DECL_EVENT(HT_EventKlassInfoEvent, event);
+    _ht_registry_init_event_klass_info_event(klass, &event);
+
+    total_size += _ht_registry_push_event_to_listener(HT_EVENT(&event), data, data_pos, callback, listener, serialize);
 
     for (j = 0; j < klass->type_info->fields_count; j++)
     {
         HT_DECL_EVENT(HT_EventKlassFieldInfoEvent, field_event);
         _ht_registry_init_event_klass_field_info_event(klass, j, &field_event);
 
-        if (ht_HT_EventKlassFieldInfoEvent_get_size(HT_EVENT(&field_event)) > REGISTRY_LISETNER_BUFF_SIZE - *data_pos)
-        {
-            callback(data, *data_pos, serialize, listener);
-            total_size += *data_pos;
-            *data_pos = 0;
-        }
-
-        *data_pos += ht_event_utils_serialize_event_to_buffer(HT_EVENT(&field_event), data + *data_pos, serialize);
+        total_size += _ht_registry_push_event_to_listener(HT_EVENT(&field_event), data, data_pos, callback, listener, serialize);
     }
 
     return total_size;
-- 
2.43.0


From 6480c9715bfb3456c850aaf22fb593f2fd826ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:42 +0000
Subject: [PATCH 14/79] fix: register classes again after the library was
 deinitialized

Their identifiers survived ht_deinit(), so after the next ht_init() no class was
in the registry and the metadata described none. The check also happens under
the lock now, as two threads could register one class twice.
---
 lib/registry.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 62575de..75b3109 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -99,19 +99,28 @@ done:
 HT_EventKlassId
 ht_registry_register_event_klass(HT_EventKlass* event_klass)
 {
-    if (event_klass->klass_id == HT_INVALID_KLASS_ID)
+    HT_EventKlassId klass_id;
+
+    ht_mutex_lock(event_klass_registry_register_mutex);
+
+    klass_id = event_klass->klass_id;
+
+    /* The class might still have an identifier from before ht_deinit() was called */
+    if (klass_id >= event_klass_register.size || event_klass_register.data[klass_id] != event_klass)
     {
-        ht_mutex_lock(event_klass_registry_register_mutex);
+        klass_id = HT_INVALID_KLASS_ID;
 
         if (ht_bag_void_ptr_add(&event_klass_register, event_klass) == HT_ERR_OK)
         {
-            event_klass->klass_id = (HT_EventKlassId)event_klass_register.size - 1;
+            klass_id = (HT_EventKlassId)event_klass_register.size - 1;
         }
 
-        ht_mutex_unlock(event_klass_registry_register_mutex);
+        event_klass->klass_id = klass_id;
     }
 
-    return event_klass->klass_id;
+    ht_mutex_unlock(event_klass_registry_register_mutex);
+
+    return klass_id;
 }
 
 HT_EventKlass**
-- 
2.43.0


From 2f8bf01d220b5ba1aaf473f36f39629fddfd34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:47 +0000
Subject: [PATCH 15/79] fix: initialize the registry only once for nested
 ht_init() calls

A second ht_init() dropped all registered classes and listener groups.
---
 lib/init.c                    | 7 +++++--
 lib/posix_mapped_tracepoint.c | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/init.c b/lib/init.c
index b6cb515..e4fdf0c 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -15,6 +15,11 @@ ht_init(int argc, char** argv)
 {
     ht_command_line_parse_args(argc, argv);
 
+    if (_ht_init_counter++ > 0)
+    {
+        return;
+    }
+
     ht_registry_init();
 
     HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
@@ -32,8 +37,6 @@ ht_init(int argc, char** argv)
 #ifdef HT_USE_PTHREADS
     _ht_posix_mapped_tracepoint_init();
 #endif
-
-    _ht_init_counter++;
 }
 
 HT_Boolean
diff --git a/lib/posix_mapped_tracepoint.c b/lib/posix_mapped_tracepoint.c
index 1e37046..30deffd 100644
--- a/lib/posix_mapped_tracepoint.c
+++ b/lib/posix_mapped_tracepoint.c
@@ -24,6 +24,7 @@ _ht_posix_mapped_tracepoint_deinit(void)
     if (_posix_mapped_tracepoint_mapped_mtx != NULL)
     {
         ht_mutex_destroy(_posix_mapped_tracepoint_mapped_mtx);
+        _posix_mapped_tracepoint_mapped_mtx = NULL;
     }
 }
 
-- 
2.43.0


From aaf490f64f6489bacd29712eec2c15040c6df752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:52 +0000
Subject: [PATCH 16/79] fix: set the feature id while holding the registry lock

---
 lib/registry.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 75b3109..464f16d 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -54,10 +54,10 @@ HT_ErrorCode ht_registry_register_feature(HT_FeatureKlass* klass)
     feature_register[feature_count++] = HT_TRUE;
 
 register_feature_finalize:
-    ht_mutex_unlock(features_register_mutex);
-
     klass->id = feature_id;
 
+    ht_mutex_unlock(features_register_mutex);
+
     return err;
 }
 
-- 
2.43.0


From 13f3610376fb048f5cc95ecb3a07add9c7ed4112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:26 +0000
Subject: [PATCH 17/79] fix: always share one listener group between timelines
 of the same name

Two threads could both miss the group and create it, and the one that failed to
register its copy silently kept a private, unnamed group; so did a caller that
ran out of memory. The reference count was also changed without the lock.
---
 lib/registry.c          | 43 ++++++++++++++++++++++++-----------------
 lib/timeline_listener.c | 12 +++++++++---
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/lib/registry.c b/lib/registry.c
index 464f16d..256ebb9 100644
--- a/lib/registry.c
+++ b/lib/registry.c
@@ -148,56 +148,63 @@ ht_registry_deinit(void)
     ht_bag_void_ptr_deinit(&event_klass_register);
 }
 
-HT_TimelineListenerContainer*
-ht_registry_find_listener_container(const char* name)
+static HT_TimelineListenerContainer*
+_ht_registry_find_listener_container(const char* name)
 {
     size_t i;
 
-    ht_mutex_lock(listeners_register_mutex);
     for (i = 0; i < listeners_register.size; i++)
     {
         if (strcmp(ht_timeline_listener_container_get_name((HT_TimelineListenerContainer*)listeners_register.data[i]), name) == 0)
         {
-            HT_TimelineListenerContainer* container = (HT_TimelineListenerContainer*)listeners_register.data[i];
-            ht_mutex_unlock(listeners_register_mutex);
-            return container;
+            return (HT_TimelineListenerContainer*)listeners_register.data[i];
         }
     }
-    ht_mutex_unlock(listeners_register_mutex);
 
     return NULL;
 }
 
+HT_TimelineListenerContainer*
+ht_registry_find_listener_container(const char* name)
+{
+    HT_TimelineListenerContainer* container;
+
+    ht_mutex_lock(listeners_register_mutex);
+    container = _ht_registry_find_listener_container(name);
+    ht_mutex_unlock(listeners_register_mutex);
+
+    return container;
+}
+
 HT_ErrorCode
 ht_registry_register_listener_container(const char* name, HT_TimelineListenerContainer* container)
 {
     HT_ErrorCode error_code;
 
-    if (ht_registry_find_listener_container(name) != NULL)
+    ht_mutex_lock(listeners_register_mutex);
+
+    if (_ht_registry_find_listener_container(name) != NULL)
     {
-        return HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
+        error_code = HT_ERR_LISTENER_CONTAINER_ALREADY_REGISTERED;
+        goto done;
     }
 
-    ht_mutex_lock(listeners_register_mutex);
     error_code = ht_timeline_listener_container_set_name(container, name);
     if (error_code != HT_ERR_OK)
     {
-        ht_mutex_unlock(listeners_register_mutex);
-        return error_code;
+        goto done;
     }
 
-    ht_timeline_listener_container_ref(container);
-
     error_code = ht_bag_void_ptr_add(&listeners_register, container);
-    if (error_code != HT_ERR_OK)
+    if (error_code == HT_ERR_OK)
     {
-        ht_mutex_unlock(listeners_register_mutex);
-        return error_code;
+        ht_timeline_listener_container_ref(container);
     }
 
+done:
     ht_mutex_unlock(listeners_register_mutex);
 
-    return HT_ERR_OK;
+    return error_code;
 }
 
 #define REGISTRY_LISETNER_BUFF_SIZE 4096
diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index 5b27c5b..d37c15d 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -199,14 +199,20 @@ ht_find_or_create_listener(const char* name)
         if (container == NULL)
         {
             container = ht_timeline_listener_container_create();
-            if (container != NULL)
+            if (container != NULL && ht_registry_register_listener_container(name, container) != HT_ERR_OK)
             {
-                ht_registry_register_listener_container(name, container);
+                /* Either other thread has just registered it, or we're out of memory */
+                ht_timeline_listener_container_unref(container);
+                container = ht_registry_find_listener_container(name);
+                if (container != NULL)
+                {
+                    ht_timeline_listener_container_ref(container);
+                }
             }
         }
         else
         {
-            container->refcount++;
+            ht_timeline_listener_container_ref(container);
         }
     }
 
-- 
2.43.0


From b006ce96581861cd849a732d8fb7bab0dee22491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:30 +0000
Subject: [PATCH 18/79] fix: read the listener list under its lock when
 notifying listeners

Registering a listener can move the list while another thread walks it.
---
 lib/timeline_listener.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/timeline_listener.c b/lib/timeline_listener.c
index d37c15d..0fbb3a6 100644
--- a/lib/timeline_listener.c
+++ b/lib/timeline_listener.c
@@ -76,10 +76,21 @@ void
 ht_timeline_listener_container_notify_listeners(HT_TimelineListenerContainer* container, TEventPtr events, size_t size, HT_Boolean serialize_events)
 {
     size_t i;
-    for (i = 0; i < container->entries.size; i++)
+    for (i = 0; ; i++)
     {
-        HT_TimelineListenerEntry* entry = &container->entries.data[i];
-        entry->callback(events, size, serialize_events, entry->user_data);
+        HT_TimelineListenerEntry entry;
+
+        /* other threads might register their listeners at the same time */
+        ht_mutex_lock(container->mutex);
+        if (i >= container->entries.size)
+        {
+            ht_mutex_unlock(container->mutex);
+            break;
+        }
+        entry = container->entries.data[i];
+        ht_mutex_unlock(container->mutex);
+
+        entry.callback(events, size, serialize_events, entry.user_data);
     }
 }
 
-- 
2.43.0


From 2598cc3f659d896b169fb35703d60fa3bcd60c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:35 +0000
Subject: [PATCH 19/79] fix: handle events larger than the listener buffer on
 raw timelines

They were serialized past the end of the buffer, and without a buffer (bypass
mode) to a null pointer.
---
 lib/listener_buffer.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/listener_buffer.c b/lib/listener_buffer.c
index 4249e58..44caed9 100644
--- a/lib/listener_buffer.c
+++ b/lib/listener_buffer.c
@@ -3,7 +3,6 @@
 #include "internal/listener_buffer.h"
 
 #include <string.h>
-#include <assert.h>
 
 #define HT_MIN(a, b) (((a) > (b)) ? (b) : (a))
 #define HT_IS_BYPASS_MODE(buffer) (buffer->max_size == 0)
@@ -75,18 +74,31 @@ ht_listener_buffer_process_unserialized_events(HT_ListenerBuffer* buffer,
 {
     size_t i;
 
-    assert(!HT_IS_BYPASS_MODE(buffer));
-
     for (i = 0; i < size;)
     {
         HT_Event* event = HT_EVENT(events + i);
+        size_t event_size = HT_EVENT_GET_KLASS(event)->get_size(event);
 
-        if (HT_EVENT_GET_KLASS(event)->get_size(event) + buffer->usage > buffer->max_size)
+        if (event_size + buffer->usage > buffer->max_size && !HT_IS_BYPASS_MODE(buffer))
         {
             ht_listener_buffer_flush(buffer, flush_callback, listener);
         }
 
-        buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        if (event_size > buffer->max_size)
+        {
+            /* doesn't fit in the buffer at all */
+            HT_Byte* data = (HT_Byte*)ht_alloc(event_size);
+            if (data != NULL)
+            {
+                flush_callback(listener, data, HT_EVENT_GET_KLASS(event)->serialize(event, data));
+                ht_free(data);
+            }
+        }
+        else
+        {
+            buffer->usage += HT_EVENT_GET_KLASS(event)->serialize(event, buffer->data + buffer->usage);
+        }
+
         i += HT_EVENT_GET_KLASS(event)->type_info->size;
     }
 }
-- 
2.43.0


From 17b7cb9b4ba4a09d418974b56dfddafca009b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:00 +0000
Subject: [PATCH 20/79] fix: handle failed allocations in timelines

ht_timeline_create() returned NULL with HT_ERR_OK, and pushing a large event
serialized it to a null pointer.
---
 lib/timeline.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index 5ad67bd..27f2120 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -70,9 +70,12 @@ ht_timeline_push_event(HT_Timeline* timeline, HT_Event* event)
             if (size > sizeof(local_buffer)/sizeof(local_buffer[0]))
             {
                 HT_Byte* buff = (HT_Byte*)ht_alloc(size);
-                event->klass->serialize(event, buff);
-                ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
-                ht_free(buff);
+                if (buff != NULL)
+                {
+                    event->klass->serialize(event, buff);
+                    ht_timeline_listener_container_notify_listeners(timeline->listeners, buff, size, timeline->serialize_events);
+                    ht_free(buff);
+                }
             }
             else
             {
@@ -192,6 +195,7 @@ ht_timeline_create(size_t buffer_capacity,
 
     if (timeline == NULL)
     {
+        error_code = HT_ERR_OUT_OF_MEMORY;
         goto done;
     }
 
-- 
2.43.0


From 1e8c6bc165ce5cbb65c428687c3a10b56b97b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:05 +0000
Subject: [PATCH 21/79] fix: roll back correctly when an allocation fails

The hash map removed the element past the last key, the task scheduler leaked
the task, and creating an id provider dereferenced NULL.
---
 lib/event_id_provider.cpp | 5 ++++-
 lib/hash_map.c            | 2 +-
 lib/task_scheduler.c      | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/event_id_provider.cpp b/lib/event_id_provider.cpp
index 405ca79..a117158 100644
--- a/lib/event_id_provider.cpp
+++ b/lib/event_id_provider.cpp
@@ -25,7 +25,10 @@ HT_EventIdProvider*
 ht_event_id_provider_create(void)
 {
     HT_EventIdProvider* provider = HT_CREATE_TYPE(HT_EventIdProvider);
-    provider->current_identifier = 0;
+    if (provider != NULL)
+    {
+        provider->current_identifier = 0;
+    }
     return provider;
 }
 
diff --git a/lib/hash_map.c b/lib/hash_map.c
index 44a0361..a90423a 100644
--- a/lib/hash_map.c
+++ b/lib/hash_map.c
@@ -117,7 +117,7 @@ ht_hash_map_insert(HT_HashMap* map, uint64_t key, const char* value, HT_ErrorCod
     err = ht_bag_void_ptr_add(&bucket->value_bag, (void*)value);
     if (err != HT_ERR_OK)
     {
-        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag));
+        ht_bag_uint64_remove_nth(&bucket->key_bag, ht_bag_size(bucket->key_bag) - 1);
     }
 
     HT_SET_ERROR(out_err, err);
diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index beb16ca..3bef93d 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -109,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
+        ht_free(task);
         return HT_TASK_SCHEDULER_INVALID_TASK_ID;
     }
 
-- 
2.43.0


From 386711b74ca929f39af0c08183af19dc82a3e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:10 +0000
Subject: [PATCH 22/79] fix: drop a span that could not be stored instead of
 another one

When the stack could not grow, stopping that span ended its parent, and so on.
---
 lib/feature_callstack.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/feature_callstack.c b/lib/feature_callstack.c
index 71f2d96..771d4a9 100644
--- a/lib/feature_callstack.c
+++ b/lib/feature_callstack.c
@@ -9,6 +9,7 @@ typedef struct
 {
     HT_Feature base;
     HT_Stack stack;
+    size_t dropped; /* number of started events (on top of the stack) which couldn't be stored */
 } HT_FeatureCallstack;
 
 static void
@@ -28,6 +29,7 @@ ht_feature_callstack_create(HT_ErrorCode* out_err)
         return NULL;
     }
 
+    feature->dropped = 0;
     error_code = ht_stack_init(&feature->stack, 1024, 32);
 
     if (error_code != HT_ERR_OK)
@@ -55,16 +57,25 @@ ht_feature_callstack_start(HT_Timeline* timeline, HT_CallstackBaseEvent* event)
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
 
     ht_timeline_init_event(timeline, HT_EVENT(event));
-    /* TODO: handle ht_stack_push() error */
-    ht_stack_push(&f->stack, event, event->base.klass->type_info->size);
+    if (f->dropped > 0 || ht_stack_push(&f->stack, event, event->base.klass->type_info->size) != HT_ERR_OK)
+    {
+        f->dropped++;
+    }
 }
 
 void
 ht_feature_callstack_stop(HT_Timeline* timeline)
 {
     HT_FeatureCallstack* f = HT_FeatureCallstack_from_timeline(timeline);
-    HT_CallstackBaseEvent* event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
+    HT_CallstackBaseEvent* event;
+
+    if (f->dropped > 0)
+    {
+        f->dropped--;
+        return;
+    }
 
+    event = (HT_CallstackBaseEvent*)ht_stack_top(&f->stack);
     event->duration = ht_monotonic_clock_get_timestamp() - HT_EVENT(event)->timestamp;
     event->thread_id = ht_thread_get_current_thread_id();
 
-- 
2.43.0


From 49df5a4e2d9be65bd2f4ff53cfab7bf3848e5064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:33 +0000
Subject: [PATCH 23/79] fix: hand out thread ids atomically

Two threads asking for their id for the first time could get the same one.
---
 lib/thread.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/thread.c b/lib/thread.c
index 4925b8f..346f47e 100644
--- a/lib/thread.c
+++ b/lib/thread.c
@@ -1,6 +1,15 @@
 #include "hawktracer/thread.h"
 
-static HT_ThreadId _ht_current_thread_id = 0; // TODO: this must be atomic
+#if defined(_MSC_VER)
+#  include <intrin.h>
+#  define HT_ATOMIC_INCREMENT_(var) ((HT_ThreadId)_InterlockedIncrement((volatile long*)&var))
+#elif defined(__GNUC__)
+#  define HT_ATOMIC_INCREMENT_(var) __sync_add_and_fetch(&var, 1)
+#else
+#  define HT_ATOMIC_INCREMENT_(var) (++var) /* TODO: this must be atomic */
+#endif
+
+static HT_ThreadId _ht_current_thread_id = 0;
 
 HT_ThreadId
 ht_thread_get_current_thread_id(void)
@@ -9,7 +18,7 @@ ht_thread_get_current_thread_id(void)
 
     if (!thread_id)
     {
-        thread_id = ++_ht_current_thread_id;
+        thread_id = HT_ATOMIC_INCREMENT_(_ht_current_thread_id);
     }
 
     return thread_id;
-- 
2.43.0


From f0b143e2b14efe3ce6b222cef81fe36955565c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 24/79] fix: use a 64-bit hash for ids of dynamic labels

The 32-bit djb2 hash collides for labels as short as "Ab" and "BA", and the
second label was then recorded under the first one's name.
---
 lib/feature_cached_string.c |  2 +-
 lib/hash_map.c              |  1 -
 lib/include/internal/hash.h | 11 ++++++-----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index 0cd7c8b..d104adb 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -171,7 +171,7 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     assert(f);
 
-    hash_value = djb2_hash(label);
+    hash_value = (uintptr_t)ht_string_hash(label);
 
     HT_FCS_LOCK_(f);
 
diff --git a/lib/hash_map.c b/lib/hash_map.c
index a90423a..337a5e7 100644
--- a/lib/hash_map.c
+++ b/lib/hash_map.c
@@ -1,6 +1,5 @@
 #include "hawktracer/alloc.h"
 #include "internal/bag.h"
-#include "internal/hash.h"
 #include "internal/hash_map.h"
 #include "internal/error.h"
 
diff --git a/lib/include/internal/hash.h b/lib/include/internal/hash.h
index 468f9eb..51eec72 100644
--- a/lib/include/internal/hash.h
+++ b/lib/include/internal/hash.h
@@ -7,14 +7,15 @@
 
 HT_DECLS_BEGIN
 
-static uint32_t djb2_hash(const char *str)
+/* 64-bit FNV-1a */
+static uint64_t ht_string_hash(const char* str)
 {
-    uint32_t hash = 5381;
-    char c;
+    uint64_t hash = UINT64_C(14695981039346656037);
+    unsigned char c;
 
-    while ((c = *str++))
+    while ((c = (unsigned char)*str++))
     {
-        hash = ((hash << 5) + hash) + (unsigned int)c; /* hash * 33 + c */
+        hash = (hash ^ c) * UINT64_C(1099511628211);
     }
 
     return hash;
-- 
2.43.0


From 6bdbbbb20f940542550861970fca0246b3a93b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:07 +0000
Subject: [PATCH 25/79] fix: announce cached strings before their ids can be
 used

The lock was released before the mapping event was pushed, so another thread
could push an event with the id first; adding one dynamic label from two threads
leaked and replaced the first copy; and failed allocations were not handled.
---
 lib/feature_cached_string.c | 63 ++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 28 deletions(-)

diff --git a/lib/feature_cached_string.c b/lib/feature_cached_string.c
index d104adb..a2fd301 100644
--- a/lib/feature_cached_string.c
+++ b/lib/feature_cached_string.c
@@ -109,36 +109,36 @@ ht_feature_cached_string_destroy(HT_Feature* f)
     ht_free(feature);
 }
 
-static uintptr_t
-ht_feature_cached_string_add_mapping_(HT_Timeline* timeline, HT_HashMap* map, uintptr_t hash, const char* label)
+/* The mapping event is pushed before the lock is released, so no other thread can use the identifier
+   before it's announced. */
+static HT_ErrorCode
+ht_feature_cached_string_insert_(HT_Timeline* timeline, HT_HashMap* map, uintptr_t hash, const char* label)
 {
-    HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
     HT_ErrorCode error_code;
 
-    assert(f);
-
-    HT_FCS_LOCK_(f);
-
-    const char* ret = ht_hash_map_insert(map, hash, label, &error_code);
-
-    HT_FCS_UNLOCK_(f);
-    if (error_code != HT_ERR_OK)
-    {
-        return 0;
-    }
-
-    if (ret == NULL)
+    if (ht_hash_map_insert(map, hash, label, &error_code) == NULL && error_code == HT_ERR_OK)
     {
         HT_TIMELINE_PUSH_EVENT(timeline, HT_StringMappingEvent, hash, label);
     }
-    return hash;
+
+    return error_code;
 }
 
 uintptr_t
 ht_feature_cached_string_add_mapping(HT_Timeline* timeline, const char* label)
 {
     HT_FeatureCachedString* f = HT_FeatureCachedString_from_timeline(timeline);
-    return ht_feature_cached_string_add_mapping_(timeline, &f->static_hashes, (uintptr_t)label, label);
+    HT_ErrorCode error_code;
+
+    assert(f);
+
+    HT_FCS_LOCK_(f);
+
+    error_code = ht_feature_cached_string_insert_(timeline, &f->static_hashes, (uintptr_t)label, label);
+
+    HT_FCS_UNLOCK_(f);
+
+    return error_code == HT_ERR_OK ? (uintptr_t)label : 0;
 }
 
 static HT_Boolean
@@ -177,20 +177,27 @@ ht_feature_cached_string_add_mapping_dynamic(HT_Timeline* timeline, const char*
 
     if (ht_hash_map_get_value(&f->dynamic_hashes, hash_value) == NULL)
     {
-        HT_FCS_UNLOCK_(f);
+        size_t label_size = strlen(label) + 1;
+        char* new_label = (char*)ht_alloc(label_size);
 
-        size_t label_len = strlen(label);
-        char* new_label = (char*)ht_alloc(label_len + 1);
-        memcpy(new_label, label, label_len);
-        new_label[label_len] = 0;
+        if (new_label == NULL)
+        {
+            hash_value = 0;
+        }
+        else
+        {
+            memcpy(new_label, label, label_size);
 
-        ht_feature_cached_string_add_mapping_(timeline, &f->dynamic_hashes, hash_value, new_label);
-    }
-    else
-    {
-        HT_FCS_UNLOCK_(f);
+            if (ht_feature_cached_string_insert_(timeline, &f->dynamic_hashes, hash_value, new_label) != HT_ERR_OK)
+            {
+                ht_free(new_label);
+                hash_value = 0;
+            }
+        }
     }
 
+    HT_FCS_UNLOCK_(f);
+
     return hash_value;
 }
 
-- 
2.43.0


From 3edf3e5ad82b6dee68f3e2aeb0fa349bf5eb7ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:29 +0000
Subject: [PATCH 26/79] fix: return no feature for a feature class that is not
 registered

The invalid id was used as an array index.
---
 lib/timeline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timeline.c b/lib/timeline.c
index 27f2120..54b0458 100644
--- a/lib/timeline.c
+++ b/lib/timeline.c
@@ -152,7 +152,7 @@ ht_timeline_set_feature(HT_Timeline* timeline, HT_Feature* feature)
 HT_Feature*
 ht_timeline_get_feature(HT_Timeline* timeline, HT_FeatureKlass* feature_klass)
 {
-    return timeline->features[feature_klass->id];
+    return feature_klass->id < HT_TIMELINE_MAX_FEATURES ? timeline->features[feature_klass->id] : NULL;
 }
 
 
-- 
2.43.0


From 382021c63809aa6954ccd34f86bf775b29327dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:29 +0000
Subject: [PATCH 27/79] fix: allow task callbacks to remove tasks from the
 scheduler

---
 lib/task_scheduler.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/lib/task_scheduler.c b/lib/task_scheduler.c
index 3bef93d..b2030bb 100644
--- a/lib/task_scheduler.c
+++ b/lib/task_scheduler.c
@@ -12,6 +12,7 @@ struct _HT_TaskScheduler
 {
     HT_BagVoidPtr tasks;
     HT_TaskId next_task_id;
+    HT_Boolean is_ticking;
 };
 
 typedef struct
@@ -22,6 +23,7 @@ typedef struct
     HT_TimestampNs next_action_ts;
     HT_TaskId id;
     HT_TaskSchedulingMode mode;
+    HT_Boolean is_removed; /* removed by a callback, released at the end of the tick */
 } HT_Task;
 
 #define HT_TASK(task) ((HT_Task*)task)
@@ -60,6 +62,7 @@ ht_task_scheduler_create(HT_ErrorCode* out_err)
     }
 
     task_scheduler->next_task_id = 0;
+    task_scheduler->is_ticking = HT_FALSE;
 
 done:
     HT_SET_ERROR(out_err, error_code);
@@ -106,6 +109,7 @@ ht_task_scheduler_schedule_task(HT_TaskScheduler* task_scheduler,
     task->next_action_ts = ht_monotonic_clock_get_timestamp() + period;
     task->id = task_scheduler->next_task_id++;
     task->mode = mode;
+    task->is_removed = HT_FALSE;
 
     if (ht_bag_void_ptr_add(&task_scheduler->tasks, task) != HT_ERR_OK)
     {
@@ -122,11 +126,13 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
     size_t i;
     HT_Boolean result;
 
+    task_scheduler->is_ticking = HT_TRUE;
+
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
         HT_TimestampNs now_ts = ht_monotonic_clock_get_timestamp();
-        if (task->next_action_ts > now_ts)
+        if (task->is_removed || task->next_action_ts > now_ts)
         {
             continue;
         }
@@ -135,9 +141,7 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
 
         if (result == HT_FALSE)
         {
-            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
-            ht_free(task);
-            i--;
+            task->is_removed = HT_TRUE;
         }
         else
         {
@@ -146,6 +150,22 @@ ht_task_scheduler_tick(HT_TaskScheduler* task_scheduler)
                         ht_monotonic_clock_get_timestamp() + task->period;
         }
     }
+
+    task_scheduler->is_ticking = HT_FALSE;
+
+    for (i = 0; i < task_scheduler->tasks.size;)
+    {
+        HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
+        if (task->is_removed)
+        {
+            ht_bag_void_ptr_remove_nth(&task_scheduler->tasks, i);
+            ht_free(task);
+        }
+        else
+        {
+            i++;
+        }
+    }
 }
 
 static void
@@ -174,8 +194,14 @@ ht_task_scheduler_remove_task(HT_TaskScheduler* task_scheduler, HT_TaskId task_i
     for (i = 0; i < task_scheduler->tasks.size; i++)
     {
         HT_Task* task = HT_TASK(task_scheduler->tasks.data[i]);
-        if (task->id == task_id)
+        if (task->id == task_id && !task->is_removed)
         {
+            if (task_scheduler->is_ticking)
+            {
+                task->is_removed = HT_TRUE;
+                return HT_TRUE;
+            }
+
             ht_task_scheduler_remove_task_entry(&task_scheduler->tasks, task);
             ht_free(task);
             return HT_TRUE;
@@ -193,9 +219,10 @@ ht_task_scheduler_get_optimal_tick_period(HT_TaskScheduler* task_scheduler)
 
     for (task_pos = 0; task_pos < task_scheduler->tasks.size; task_pos++)
     {
-        HT_DurationNs task_period = HT_TASK(task_scheduler->tasks.data[task_pos])->period;
+        HT_Task* task = HT_TASK(task_scheduler->tasks.data[task_pos]);
+        HT_DurationNs task_period = task->period;
 
-        if (task_period == 0)
+        if (task_period == 0 || task->is_removed)
         {
             continue;
         }
-- 
2.43.0


From e77533818b6ebac10554ef2092386c96d2ef94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:31 +0000
Subject: [PATCH 28/79] fix: make the TCP listener stop safely and send whole
 streams to its clients

---
 lib/include/internal/listeners/tcp_server.h |  3 +
 lib/listeners/tcp_listener.c                | 61 +++++++++----
 lib/tcp_server.cpp                          | 97 ++++++++++++++++++---
 3 files changed, 131 insertions(+), 30 deletions(-)

diff --git a/lib/include/internal/listeners/tcp_server.h b/lib/include/internal/listeners/tcp_server.h
index e798f6a..0052358 100644
--- a/lib/include/internal/listeners/tcp_server.h
+++ b/lib/include/internal/listeners/tcp_server.h
@@ -6,6 +6,7 @@
 HT_DECLS_BEGIN
 
 typedef struct _HT_TCPServer HT_TCPServer;
+/* Gets ownership of the client's socket. Call ht_tcp_server_add_client() to start sending data to the client. */
 typedef void(*OnClientConnected)(int, void*);
 
 HT_TCPServer* ht_tcp_server_create(void);
@@ -20,6 +21,8 @@ void ht_tcp_server_stop(HT_TCPServer* server);
 
 HT_Boolean ht_tcp_server_is_running(const HT_TCPServer* server);
 
+void ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd);
+
 HT_Boolean ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, size_t size);
 
 HT_DECLS_END
diff --git a/lib/listeners/tcp_listener.c b/lib/listeners/tcp_listener.c
index a6ce6a3..cafeb1f 100644
--- a/lib/listeners/tcp_listener.c
+++ b/lib/listeners/tcp_listener.c
@@ -17,6 +17,7 @@ struct _HT_TCPListener
     HT_Mutex* _push_action_mutex;
     HT_ListenerBuffer _buffer;
     HT_TCPServer* _tcp_server;
+    HT_Boolean _is_stopped;
     int _last_client_sock_fd;
     /* TODO: This is just a hack to prevent from sending half-events.
      * We should revisit this for next release */
@@ -29,7 +30,7 @@ struct _HT_TCPListener
 HT_INLINE static HT_Boolean
 _ht_tcp_listener_is_stopped(HT_TCPListener* listener)
 {
-    return listener->_tcp_server == NULL;
+    return listener->_is_stopped;
 }
 
 static void
@@ -52,21 +53,29 @@ ht_tcp_listener_metadata_pusher(TEventPtr e, size_t c, HT_Boolean serialized, vo
     assert(serialized);
     (void) serialized;
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
-    ht_mutex_lock(listener->_push_action_mutex);
     ht_tcp_server_write_to_socket(listener->_tcp_server, listener->_last_client_sock_fd, (char*)e, c);
-    ht_mutex_unlock(listener->_push_action_mutex);
 }
 
 static void
 ht_tcp_listener_client_connected(int sock_fd, void* user_data)
 {
     HT_TCPListener* listener = (HT_TCPListener*)user_data;
+    HT_TCPListenerOnClientConnectedCallback callback;
+    void* callback_user_data;
+
+    /* Nothing can be sent to the client before it gets all the metadata,
+     * and it mustn't be added in the middle of an event */
+    ht_mutex_lock(listener->_push_action_mutex);
     listener->_last_client_sock_fd = sock_fd;
     ht_timeline_listener_push_metadata(ht_tcp_listener_metadata_pusher, user_data, HT_TRUE);
+    ht_tcp_server_add_client(listener->_tcp_server, sock_fd);
+    callback = listener->_client_connected_callback;
+    callback_user_data = listener->_client_connected_user_data;
+    ht_mutex_unlock(listener->_push_action_mutex);
 
-    if (listener->_client_connected_callback)
+    if (callback)
     {
-        listener->_client_connected_callback(sock_fd, listener->_client_connected_user_data);
+        callback(sock_fd, callback_user_data);
     }
 }
 
@@ -79,19 +88,38 @@ ht_tcp_listener_init(HT_TCPListener* listener, int port, size_t buffer_size)
         return error_code;
     }
 
+    listener->_is_stopped = HT_FALSE;
     listener->_last_client_sock_fd = 0;
     listener->_was_flushed = HT_FALSE;
+    listener->_client_connected_callback = NULL;
+    listener->_client_connected_user_data = NULL;
 
-    // TODO handle if return null
     listener->_push_action_mutex = ht_mutex_create();
+    if (listener->_push_action_mutex == NULL)
+    {
+        error_code = HT_ERR_OUT_OF_MEMORY;
+        goto error_create_mutex;
+    }
+
     listener->_tcp_server = ht_tcp_server_create();
+    if (listener->_tcp_server == NULL)
+    {
+        error_code = HT_ERR_OUT_OF_MEMORY;
+        goto error_create_server;
+    }
 
     if (ht_tcp_server_start(listener->_tcp_server, port, ht_tcp_listener_client_connected, listener))
     {
         return HT_ERR_OK;
     }
 
-    return HT_ERR_CANT_START_TCP_SERVER;
+    error_code = HT_ERR_CANT_START_TCP_SERVER;
+    ht_tcp_server_destroy(listener->_tcp_server);
+error_create_server:
+    ht_mutex_destroy(listener->_push_action_mutex);
+error_create_mutex:
+    ht_listener_buffer_deinit(&listener->_buffer);
+    return error_code;
 }
 
 static void
@@ -104,11 +132,6 @@ ht_tcp_listener_push_events(HT_TCPListener* listener, TEventPtr events, size_t s
         goto push_event_done;
     }
 
-    if (!ht_tcp_server_is_running(listener->_tcp_server))
-    {
-        goto push_event_done;
-    }
-
     if (serialized)
     {
         ht_listener_buffer_process_serialized_events(&listener->_buffer, events, size, ht_tcp_listener_f_flush, listener);
@@ -141,7 +164,7 @@ ht_tcp_listener_create(int port, size_t buffer_size, HT_ErrorCode* out_err)
     HT_ErrorCode error_code = ht_tcp_listener_init(listener, port, buffer_size);
     if (error_code != HT_ERR_OK)
     {
-        ht_tcp_listener_destroy(listener);
+        ht_free(listener);
         listener = NULL;
     }
 
@@ -182,8 +205,10 @@ ht_tcp_listener_set_on_client_connected_callback(
 {
     assert(listener);
 
+    ht_mutex_lock(listener->_push_action_mutex);
     listener->_client_connected_user_data = user_data;
     listener->_client_connected_callback = callback;
+    ht_mutex_unlock(listener->_push_action_mutex);
 }
 
 void
@@ -208,20 +233,20 @@ ht_tcp_listener_stop(HT_TCPListener* listener)
 {
     ht_mutex_lock(listener->_push_action_mutex);
 
-    if (!_ht_tcp_listener_is_stopped(listener))
+    if (_ht_tcp_listener_is_stopped(listener))
     {
         ht_mutex_unlock(listener->_push_action_mutex);
+        return;
     }
 
     ht_tcp_listener_flush(listener);
-    ht_tcp_server_stop(listener->_tcp_server);
     ht_listener_buffer_deinit(&listener->_buffer);
-    ht_tcp_server_destroy(listener->_tcp_server);
-    listener->_tcp_server = NULL;
+    listener->_is_stopped = HT_TRUE;
 
     ht_mutex_unlock(listener->_push_action_mutex);
 
-    ht_mutex_unlock(listener->_push_action_mutex);
+    /* the thread accepting clients might still need the lock */
+    ht_tcp_server_destroy(listener->_tcp_server);
 }
 
 #endif /* HT_ENABLE_TCP_LISTENER */
diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 742d457..12e5713 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -57,6 +57,11 @@ ht_thread_create(ht_thread_callback_t callback, void* user_data)
 {
     HT_Thread* th = HT_CREATE_TYPE(HT_Thread);
 
+    if (th == NULL)
+    {
+        return NULL;
+    }
+
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
     th->th = std::thread(callback, user_data);
@@ -107,8 +112,25 @@ ht_thread_destroy(HT_Thread* th)
 #include <unistd.h>
 #endif
 
+#include <errno.h>
 #include <string.h>
 
+#ifdef MSG_NOSIGNAL
+#  define HT_TCP_SEND_FLAGS MSG_NOSIGNAL
+#else
+#  define HT_TCP_SEND_FLAGS 0
+#endif
+
+static void
+_ht_tcp_close_socket(int sock_fd)
+{
+#ifdef _WIN32
+    closesocket(sock_fd);
+#else
+    close(sock_fd);
+#endif
+}
+
 static void *_ht_tcp_server_run(void *user_data);
 
 struct _HT_TCPServer
@@ -127,9 +149,26 @@ ht_tcp_server_create(void)
 {
     HT_TCPServer* server = HT_CREATE_TYPE(HT_TCPServer);
 
-    ht_bag_int_init(&server->client_sock_fd, 8);
-    server->accept_client_thread = NULL;
+    if (server == NULL)
+    {
+        return NULL;
+    }
+
+    if (ht_bag_int_init(&server->client_sock_fd, 8) != HT_ERR_OK)
+    {
+        ht_free(server);
+        return NULL;
+    }
+
     server->client_mutex = ht_mutex_create();
+    if (server->client_mutex == NULL)
+    {
+        ht_bag_int_deinit(&server->client_sock_fd);
+        ht_free(server);
+        return NULL;
+    }
+
+    server->accept_client_thread = NULL;
     server->server_sock_fd = -1;
     server->client_connected_cb = NULL;
     server->client_connected_ud = NULL;
@@ -197,6 +236,11 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
     server->client_connected_cb = client_connected_cb;
     server->client_connected_ud = user_data;
     server->accept_client_thread = ht_thread_create(_ht_tcp_server_run, server);
+    if (server->accept_client_thread == NULL)
+    {
+        ht_tcp_server_stop(server);
+        return HT_FALSE;
+    }
 
     return HT_TRUE;
 }
@@ -209,25 +253,36 @@ ht_tcp_server_stop(HT_TCPServer* server)
         return;
     }
 
-    ht_mutex_lock(server->client_mutex);
-    ht_bag_int_clear(&server->client_sock_fd);
-    ht_mutex_unlock(server->client_mutex);
-
+    size_t i;
     int prev_sock_fd = server->server_sock_fd;
     server->server_sock_fd = -1;
 #ifdef _WIN32
     closesocket(prev_sock_fd);
-    WSACleanup();
 #else
     shutdown(prev_sock_fd, 2);
 #endif
 
     if (server->accept_client_thread)
     {
-        ht_thread_join(server->accept_client_thread);
         ht_thread_destroy(server->accept_client_thread);
         server->accept_client_thread = NULL;
     }
+
+#ifndef _WIN32
+    close(prev_sock_fd);
+#endif
+
+    ht_mutex_lock(server->client_mutex);
+    for (i = 0; i < ht_bag_size(server->client_sock_fd); i++)
+    {
+        _ht_tcp_close_socket(ht_bag_nth(server->client_sock_fd, i));
+    }
+    ht_bag_int_clear(&server->client_sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+
+#ifdef _WIN32
+    WSACleanup();
+#endif
 }
 
 HT_Boolean
@@ -247,6 +302,7 @@ ht_tcp_server_write(HT_TCPServer* server, char* buffer, size_t size)
     {
         if (!ht_tcp_server_write_to_socket(server, ht_bag_nth(server->client_sock_fd, i), buffer, size))
         {
+            _ht_tcp_close_socket(ht_bag_nth(server->client_sock_fd, i));
             ht_bag_int_remove_nth(&server->client_sock_fd, i);
             i--;
         }
@@ -268,7 +324,12 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
 
     while (sent < size)
     {
-        int n = send(sock_fd, buffer + sent, size - sent, 0);
+        int n = send(sock_fd, buffer + sent, size - sent, HT_TCP_SEND_FLAGS);
+
+        if (n < 0 && errno == EINTR)
+        {
+            continue;
+        }
 
         if (n <= 0)
         {
@@ -281,6 +342,21 @@ ht_tcp_server_write_to_socket(HT_TCPServer* server, int sock_fd, char* buffer, s
     return HT_TRUE;
 }
 
+void
+ht_tcp_server_add_client(HT_TCPServer* server, int sock_fd)
+{
+    HT_ErrorCode error_code;
+
+    ht_mutex_lock(server->client_mutex);
+    error_code = ht_bag_int_add(&server->client_sock_fd, sock_fd);
+    ht_mutex_unlock(server->client_mutex);
+
+    if (error_code != HT_ERR_OK)
+    {
+        _ht_tcp_close_socket(sock_fd);
+    }
+}
+
 static void*
 _ht_tcp_server_run(void* user_data)
 {
@@ -299,9 +375,6 @@ _ht_tcp_server_run(void* user_data)
         if (client_fd >= 0)
         {
             server->client_connected_cb(client_fd, server->client_connected_ud);
-            ht_mutex_lock(server->client_mutex);
-            ht_bag_int_add(&server->client_sock_fd, client_fd);
-            ht_mutex_unlock(server->client_mutex);
         }
     }
     return NULL;
-- 
2.43.0


From 5ef1d55cf283aa6319ac36005cac5804cc45686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:17 +0000
Subject: [PATCH 29/79] fix: check types of name and mapping fields before
 reading them as strings

---
 client/converter.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/client/converter.cpp b/client/converter.cpp
index 0013daa..568f598 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -13,6 +13,11 @@ namespace HawkTracer
 namespace client
 {
 
+static bool has_value_of_type(const parser::Event& event, const std::string& name, parser::FieldTypeId type)
+{
+    return event.has_value(name) && event.get_raw_value(name).field->get_type_id() == type;
+}
+
 Converter::Converter() :
     _tracepoint_map(HawkTracer::parser::make_unique<TracepointMap>()),
     _mapping_klass_name("HT_StringMappingEvent")
@@ -66,13 +71,16 @@ std::string Converter::_get_label(const parser::Event& event)
     }
     else if (event.get_klass()->get_id() == _mapping_klass_id)
     {
-        _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
+        if (has_value_of_type(event, "identifier", parser::FieldTypeId::UINT64) && has_value_of_type(event, "label", parser::FieldTypeId::STRING))
+        {
+            _tracepoint_map->add_map_entry(event.get_value<uint64_t>("identifier"), event.get_value<char*>("label"));
+        }
     } 
     else if (event.has_value("label"))
     {
         label = _convert_value_to_string(event.get_raw_value("label")); 
     }
-    else if (event.has_value("name"))
+    else if (has_value_of_type(event, "name", parser::FieldTypeId::STRING))
     {
         label = event.get_value<char*>("name");
     }
-- 
2.43.0


From 9fdda0586f950816e1a9ad63d7f05c89cb95f2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:23 +0000
Subject: [PATCH 30/79] fix: escape strings in the Chrome trace output

---
 client/chrome_trace_converter.cpp | 33 +++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e5cfb9d..e8d98ff 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -1,5 +1,6 @@
 #include "chrome_trace_converter.hpp"
 
+#include <cstdio>
 #include <set>
 
 static uint64_t ns_to_ms(uint64_t nano_secs)
@@ -7,6 +8,30 @@ static uint64_t ns_to_ms(uint64_t nano_secs)
     return nano_secs / 1000u;
 }
 
+static std::string to_json_string(const std::string& text)
+{
+    std::string ret = "\"";
+    for (char c : text)
+    {
+        if (c == '"' || c == '\\')
+        {
+            ret += '\\';
+            ret += c;
+        }
+        else if ((unsigned char)c < 0x20)
+        {
+            char buffer[8];
+            snprintf(buffer, sizeof(buffer), "\\u%04x", (unsigned)c);
+            ret += buffer;
+        }
+        else
+        {
+            ret += c;
+        }
+    }
+    return ret + "\"";
+}
+
 namespace HawkTracer
 {
 namespace client
@@ -49,8 +74,8 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
 
     // Chrome expects the timestamps/durations to be microseconds
     // so we need to convert from nano to micro
-    _file << "{\"name\": \"" << label
-         << "\", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
+    _file << "{\"name\": " << to_json_string(label)
+         << ", \"ph\": \"X\", \"ts\": " << ns_to_ms(event.get_timestamp())
          << ", \"dur\": " << ns_to_ms(event.get_value_or_default<HT_DurationNs>("duration", 0u))
          << ", \"pid\": 0, \"tid\": " << event.get_value_or_default<HT_ThreadId>("thread_id", 0u)
          << ", \"args\": {" << _get_args(event) << "}"
@@ -87,7 +112,7 @@ std::string ChromeTraceConverter::_get_args(const parser::Event& event)
         {
             ret += ",";
         }
-        ret += "\"" + value.first + "\": " + _get_json_value(value.second);
+        ret += to_json_string(value.first) + ": " + _get_json_value(value.second);
     }
     return ret;
 }
@@ -103,7 +128,7 @@ std::string ChromeTraceConverter::_get_json_value(const parser::Event::Value& va
     {
     MKCREFLECT_FOREACH(PRINT_INT_VALUE, 0, INT_TYPE_LIST)
     case parser::FieldTypeId::STRING:
-        return std::string("\"") + value.value.f_STRING + "\"";
+        return to_json_string(value.value.f_STRING);
     default:
         return "\"unsupported type\"";
     }
-- 
2.43.0


From f823b46b7cc1f7b47bee7a398dc4e741ccf9cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 31/79] fix: convert events with an empty label

---
 client/callgrind_converter.cpp    |  4 ++--
 client/chrome_trace_converter.cpp |  4 ++--
 client/converter.cpp              | 12 ++++++------
 client/converter.hpp              |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/client/callgrind_converter.cpp b/client/callgrind_converter.cpp
index 6231681..c7bfcbe 100644
--- a/client/callgrind_converter.cpp
+++ b/client/callgrind_converter.cpp
@@ -21,9 +21,9 @@ bool CallgrindConverter::init(const std::string& file_name)
 
 void CallgrindConverter::process_event(const parser::Event& event)
 {
-    std::string label = _get_label(event);
+    std::string label;
 
-    if (label == "")
+    if (!_get_label(event, label))
     {
         return;
     }
diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index e8d98ff..3f4b2a4 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -56,9 +56,9 @@ bool ChromeTraceConverter::init(const std::string& file_name)
 
 void ChromeTraceConverter::process_event(const parser::Event& event)
 {
-    std::string label = _get_label(event);
+    std::string label;
 
-    if (label == "")
+    if (!_get_label(event, label))
     {
         return;
     }
diff --git a/client/converter.cpp b/client/converter.cpp
index 568f598..9d323b5 100644
--- a/client/converter.cpp
+++ b/client/converter.cpp
@@ -61,10 +61,8 @@ std::string Converter::_convert_value_to_string(const parser::Event::Value& valu
     }
 }
 
-std::string Converter::_get_label(const parser::Event& event)
+bool Converter::_get_label(const parser::Event& event, std::string& out_label)
 {
-    std::string label;
-
     if (_mapping_klass_id == 0)
     {
         _try_setting_mapping_klass_id(event);
@@ -78,13 +76,15 @@ std::string Converter::_get_label(const parser::Event& event)
     } 
     else if (event.has_value("label"))
     {
-        label = _convert_value_to_string(event.get_raw_value("label")); 
+        out_label = _convert_value_to_string(event.get_raw_value("label")); 
+        return true;
     }
     else if (has_value_of_type(event, "name", parser::FieldTypeId::STRING))
     {
-        label = event.get_value<char*>("name");
+        out_label = event.get_value<char*>("name");
+        return true;
     }
-    return label;
+    return false;
 }
 
 } // namespace client
diff --git a/client/converter.hpp b/client/converter.hpp
index b99ed23..3b141c3 100644
--- a/client/converter.hpp
+++ b/client/converter.hpp
@@ -24,7 +24,7 @@ public:
     virtual void stop() = 0;
 
 protected:
-    std::string _get_label(const parser::Event& event);
+    bool _get_label(const parser::Event& event, std::string& out_label);
     std::unique_ptr<TracepointMap> _tracepoint_map;
 
 private:
-- 
2.43.0


From 0effa7ca42f5af0bd845b6e3d26f3612ae725e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:01 +0000
Subject: [PATCH 32/79] fix: support output paths longer than 127 characters in
 the converter

---
 client/main.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/client/main.cpp b/client/main.cpp
index 0e2c764..7094d3b 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -6,21 +6,29 @@
 
 #include <hawktracer/client_utils/command_line_parser.hpp>
 #include <hawktracer/client_utils/stream_factory.hpp>
+#include <ctime>
 #include <iostream>
 #include <map>
 
 using namespace HawkTracer;
 using ClientUtils::CommandLineParser;
 
-std::string create_output_path(const char* path)
+std::string create_output_path(const std::string& path)
 {
     time_t rawtime;
     time(&rawtime);
     struct tm* time_info = localtime (&rawtime);
-    char file_name_buffer[128];
-    strftime(file_name_buffer, 128, path, time_info);
+    // strftime() returns 0 if the buffer is too small, but also for an empty
+    // result, so there must be always something to write
+    std::string format = path + " ";
+    std::string file_name(format.size() + 128, '\0');
+    size_t size;
+    while ((size = strftime(&file_name[0], file_name.size(), format.c_str(), time_info)) == 0)
+    {
+        file_name.resize(file_name.size() * 2);
+    }
 
-    return file_name_buffer;
+    return file_name.substr(0, size - 1);
 }
 
 std::string supported_formats(std::map<std::string, std::unique_ptr<client::Converter>>& formats)
@@ -73,7 +81,7 @@ int main(int argc, char** argv)
 
     parser::KlassRegister klass_register;
     parser::ProtocolReader reader(&klass_register, std::move(stream), true);
-    std::string out_file = create_output_path(output_path.c_str());
+    std::string out_file = create_output_path(output_path);
 
     auto converter = formats.find(format);
     if (converter == formats.end())
-- 
2.43.0


From b88438c1dba46b8ae785c0f7747ac868711efee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:01 +0000
Subject: [PATCH 33/79] fix: make the longer of two spans with the same start
 the caller

---
 client/call_graph.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client/call_graph.cpp b/client/call_graph.cpp
index 2dcc827..996e33c 100644
--- a/client/call_graph.cpp
+++ b/client/call_graph.cpp
@@ -12,7 +12,9 @@ std::vector<std::pair<std::shared_ptr<CallGraph::TreeNode>, int>>
 {
     std::sort(events.begin(), events.end(), 
             [](const NodeData& e1, const NodeData& e2){
-                return e1.start_ts < e2.start_ts;
+                // the longer one of events started at the same time is the caller
+                return e1.start_ts < e2.start_ts ||
+                    (e1.start_ts == e2.start_ts && e1.stop_ts > e2.stop_ts);
             });
     for (const auto& event : events)
     {
-- 
2.43.0


From b5d9b350e2a951cddf8336c90ac195e366be6381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:53 +0000
Subject: [PATCH 34/79] fix: find tracepoint labels of one character

---
 tools/generate_tracepoint_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index b6aa80f..2e7de7f 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -135,11 +135,11 @@ def run_program(argv):
     languages = [
         LanguageSupport(
             LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)',
-                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]+)\)\s*;\s*$'),
+                                '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]*)\)\s*;\s*$'),
             generate_c_cpp_header),
         LanguageSupport(
             LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua',
-                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]+)\s*$'),
+                                '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]*)\s*$'),
             generate_lua_file)
     ]
 
-- 
2.43.0


From 7311a8ad006bf4534c8daabe3e8009e0f584b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:58 +0000
Subject: [PATCH 35/79] fix: scan sources that are not valid in the locale's
 encoding for labels

---
 tools/generate_tracepoint_labels.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index 2e7de7f..83c506a 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -1,4 +1,5 @@
 import argparse
+import io
 import os
 import re
 import sys
@@ -98,7 +99,9 @@ class LanguageSupport:
 
     @staticmethod
     def _get_matches(file_name, regex):
-        return [regex.match(line) for line in open(file_name) if regex.match(line)]
+        # sources might be in any encoding, labels consist of ASCII characters only
+        with io.open(file_name, encoding='utf-8', errors='replace') as source_file:
+            return [regex.match(line) for line in source_file if regex.match(line)]
 
 
 def generate_c_cpp_header(cpp_labels, stream):
-- 
2.43.0


From c58eef56057b22c37089840cf3f113e53f408d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:03 +0000
Subject: [PATCH 36/79] fix: generate a valid LUA file if there are no labels

---
 tools/generate_tracepoint_labels.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index 83c506a..11c6d92 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -115,6 +115,10 @@ def generate_c_cpp_header(cpp_labels, stream):
 
 
 def generate_lua_file(lua_labels, stream):
+    # a declaration without any name is not valid in LUA
+    if not lua_labels:
+        return
+
     stream.write('local {} = {}\n'.format(
         ','.join([l[0] for l in lua_labels]), ','.join([str(l[1]) for l in lua_labels])))
 
-- 
2.43.0


From 44071c80c0c9c0b1c2209ddfd418c7e11a474849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:08 +0000
Subject: [PATCH 37/79] fix: skip dangling links when searching for labels

---
 tools/generate_tracepoint_labels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index 11c6d92..f60378c 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -85,7 +85,8 @@ class LanguageSupport:
 
         for root, _, file_names in os.walk(self._parameters.get_search_dir()):
             file_paths = [os.path.abspath(os.path.join(root, file_path)) for file_path in file_names]
-            for file_path in filter(file_regex.match, file_paths):
+            # dangling links (e.g. lock files of an editor) can not be read
+            for file_path in filter(os.path.isfile, filter(file_regex.match, file_paths)):
                 for label_match in self._get_matches(file_path, label_regex):
                     if label_match.group(1) not in label_set:
                         self._labels.append((label_match.group(1), self._start_label_id))  # todo group nr to arguments
-- 
2.43.0


From e71500a2340994ace363d267261d825f4527d9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:42 +0000
Subject: [PATCH 38/79] fix: leave the library uninitialized if there is no
 memory to initialize it

---
 .../hawktracer/posix_mapped_tracepoint.h      |  2 +-
 lib/init.c                                    | 49 ++++++++++++++-----
 lib/posix_mapped_tracepoint.c                 |  4 +-
 3 files changed, 40 insertions(+), 15 deletions(-)

diff --git a/lib/include/hawktracer/posix_mapped_tracepoint.h b/lib/include/hawktracer/posix_mapped_tracepoint.h
index f591281..1b5e11b 100644
--- a/lib/include/hawktracer/posix_mapped_tracepoint.h
+++ b/lib/include/hawktracer/posix_mapped_tracepoint.h
@@ -15,7 +15,7 @@ HT_API void ht_pthread_mapped_tracepoint_leave(void);
 
 HT_API void ht_pthread_mapped_tracepoint_add_mapping(void);
 
-void _ht_posix_mapped_tracepoint_init(void);
+HT_ErrorCode _ht_posix_mapped_tracepoint_init(void);
 
 void _ht_posix_mapped_tracepoint_deinit(void);
 
diff --git a/lib/init.c b/lib/init.c
index e4fdf0c..e79a3cf 100644
--- a/lib/init.c
+++ b/lib/init.c
@@ -10,6 +10,20 @@
 
 static int _ht_init_counter = 0;
 
+static HT_Boolean
+_ht_register_core_klasses(void)
+{
+    return HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_Event) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_EventKlassInfoEvent) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_EventKlassFieldInfoEvent) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_CallstackBaseEvent) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_CallstackIntEvent) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_CallstackStringEvent) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_StringMappingEvent) != HT_INVALID_KLASS_ID &&
+        HT_REGISTER_EVENT_KLASS(HT_SystemInfoEvent) != HT_INVALID_KLASS_ID;
+}
+
 void
 ht_init(int argc, char** argv)
 {
@@ -20,23 +34,32 @@ ht_init(int argc, char** argv)
         return;
     }
 
-    ht_registry_init();
-
-    HT_REGISTER_EVENT_KLASS(HT_EndiannessInfoEvent);
-    HT_REGISTER_EVENT_KLASS(HT_Event);
-    HT_REGISTER_EVENT_KLASS(HT_EventKlassInfoEvent);
-    HT_REGISTER_EVENT_KLASS(HT_EventKlassFieldInfoEvent);
-    HT_REGISTER_EVENT_KLASS(HT_CallstackBaseEvent);
-    HT_REGISTER_EVENT_KLASS(HT_CallstackIntEvent);
-    HT_REGISTER_EVENT_KLASS(HT_CallstackStringEvent);
-    HT_REGISTER_EVENT_KLASS(HT_StringMappingEvent);
-    HT_REGISTER_EVENT_KLASS(HT_SystemInfoEvent);
+    /* if there isn't enough memory, ht_is_initialized() returns HT_FALSE */
+    if (ht_registry_init() != HT_ERR_OK)
+    {
+        _ht_init_counter--;
+        return;
+    }
 
-    ht_feature_register_core_features();
+    if (!_ht_register_core_klasses())
+    {
+        goto error;
+    }
 
 #ifdef HT_USE_PTHREADS
-    _ht_posix_mapped_tracepoint_init();
+    if (_ht_posix_mapped_tracepoint_init() != HT_ERR_OK)
+    {
+        goto error;
+    }
 #endif
+
+    ht_feature_register_core_features();
+
+    return;
+
+error:
+    ht_registry_deinit();
+    _ht_init_counter--;
 }
 
 HT_Boolean
diff --git a/lib/posix_mapped_tracepoint.c b/lib/posix_mapped_tracepoint.c
index 30deffd..31a22c7 100644
--- a/lib/posix_mapped_tracepoint.c
+++ b/lib/posix_mapped_tracepoint.c
@@ -12,10 +12,12 @@ static HT_Mutex* _posix_mapped_tracepoint_mapped_mtx = NULL;
 static HT_Timeline* _mapped_timeline;
 static const char* _mapped_ptr;
 
-void
+HT_ErrorCode
 _ht_posix_mapped_tracepoint_init(void)
 {
     _posix_mapped_tracepoint_mapped_mtx = ht_mutex_create();
+
+    return _posix_mapped_tracepoint_mapped_mtx != NULL ? HT_ERR_OK : HT_ERR_OUT_OF_MEMORY;
 }
 
 void
-- 
2.43.0


From 55683e3379faa4d1ad4e1a4277dab3b3bccc343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:48 +0000
Subject: [PATCH 39/79] fix: never pass a null pointer with size 0 to a custom
 allocator

---
 lib/alloc.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/alloc.c b/lib/alloc.c
index f80e603..f33aa09 100644
--- a/lib/alloc.c
+++ b/lib/alloc.c
@@ -13,7 +13,8 @@ void ht_allocator_set(realloc_function func, void* user_data)
 
 void* ht_alloc(size_t size)
 {
-    return (realloc_fnc_ == NULL) ? malloc(size) : realloc_fnc_(NULL, size, user_data_);
+    /* custom allocators use size 0 for releasing the memory */
+    return (realloc_fnc_ == NULL) ? malloc(size) : realloc_fnc_(NULL, size > 0 ? size : 1, user_data_);
 }
 
 void* ht_realloc(void* ptr, size_t size)
@@ -27,7 +28,7 @@ void ht_free(void* ptr)
     {
         free(ptr);
     }
-    else
+    else if (ptr != NULL)
     {
         realloc_fnc_(ptr, 0, user_data_);
     }
-- 
2.43.0


From 512f4441da466451053aa1062202441b02c4d912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:34 +0000
Subject: [PATCH 40/79] fix: reject buffer sizes which are negative or not
 numbers

strtoul() negates negative numbers and stops at the first character that
isn't a digit, so -1 became the largest possible size (creation of the
global timeline fails then) and 12abc was accepted as 12.
---
 lib/command_line_parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/command_line_parser.c b/lib/command_line_parser.c
index 795940e..2d63559 100644
--- a/lib/command_line_parser.c
+++ b/lib/command_line_parser.c
@@ -52,7 +52,8 @@ set_global_timeline_buffer_size(int argc, char** argv, int pos)
         return HT_ERR_OUT_OF_RANGE;
     }
 
-    if (end - s == 0)
+    // strtoul() accepts (and negates) negative numbers
+    if (end - s == 0 || *end != '\0' || strchr(s, '-'))
     {
         return HT_ERR_INVALID_FORMAT;
     }
-- 
2.43.0


From 07189c5241b7b768198bb9e3b447f9f309a32f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:31 +0000
Subject: [PATCH 41/79] fix: reject invalid addresses and ports of a data
 source

Ports above 65535 were silently truncated, and numbers above 255 or
other text after the address gave an address the client tried to connect
to forever.
---
 client_utils/stream_factory.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/client_utils/stream_factory.cpp b/client_utils/stream_factory.cpp
index 86fe6ad..74fbc31 100644
--- a/client_utils/stream_factory.cpp
+++ b/client_utils/stream_factory.cpp
@@ -14,16 +14,19 @@ namespace ClientUtils
 
 static bool scan_ip_address(const std::string& address, std::string& out_ip, uint16_t& out_port, uint16_t default_port)
 {
-    unsigned n1, n2, n3, n4, port;
-    int num = sscanf(address.c_str(), "%u.%u.%u.%u:%u", &n1, &n2, &n3, &n4, &port);
+    unsigned n1, n2, n3, n4, port = default_port;
+    int ip_length = 0;
+    // width of the fields is limited, because result of an overflow is undefined
+    int num = sscanf(address.c_str(), "%9u.%9u.%9u.%9u%n:%9u", &n1, &n2, &n3, &n4, &ip_length, &port);
 
-    if (num >= 4)
+    if (num < 4 || n1 > 255 || n2 > 255 || n3 > 255 || n4 > 255 || port > UINT16_MAX)
     {
-        out_ip = address.substr(0, address.find(':'));
-        out_port = (num == 5) ? (uint16_t)port : default_port;
-        return true;
+        return false;
     }
-    return false;
+
+    out_ip = address.substr(0, address.find(':'));
+    out_port = (uint16_t)port;
+    return out_ip.length() == (size_t)ip_length;
 }
 
 static bool file_exists(const char* name)
-- 
2.43.0


From b7e5d167f847ebcd755ea8b34b731994ae198a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:37 +0000
Subject: [PATCH 42/79] fix: never leave incomplete amalgamated files for a
 parallel build

Generation of the C and C++ amalgamations write the same header, so one
could truncate it while the other is being compiled.
---
 tools/amalgamate.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/tools/amalgamate.py b/tools/amalgamate.py
index d085d80..254043c 100644
--- a/tools/amalgamate.py
+++ b/tools/amalgamate.py
@@ -1,4 +1,5 @@
 import argparse
+import contextlib
 import copy
 import re
 import shutil
@@ -35,6 +36,16 @@ class ConditionalSource:
         self.condition = condition
 
 
+@contextlib.contextmanager
+def open_output(path):
+    # C and C++ versions share the header and the config, and might be generated and compiled in parallel,
+    # so nobody should ever see an incomplete file.
+    tmp_path = '{}.{}.tmp'.format(path, os.getpid())
+    with open(tmp_path, 'w') as f:
+        yield f
+    os.replace(tmp_path, path)
+
+
 skip_headers = ['hawktracer/event_macros_impl.h']
 
 platform_features = [
@@ -242,7 +253,7 @@ class Amalgamator:
 
     def _generate_header_file(self):
         print("Generate header file " + self._out_header)
-        with open(self._out_header, "w") as f:
+        with open_output(self._out_header) as f:
             header_file_dumper = HeaderFileDumper(f, self._headers, self._include_dir)
 
             self._dump_license(f)
@@ -258,7 +269,7 @@ class Amalgamator:
 
     def _generate_source_file(self):
         print("Generate source file " + self._out_source)
-        with open(self._out_source, "w") as f:
+        with open_output(self._out_source) as f:
             source_file_dumper = SourceFileDumper(f, self._headers)
             header_file_dumper = HeaderFileDumper(f, self._headers, self._include_dir)
 
@@ -296,7 +307,8 @@ def run_program(argv):
     args = parser.parse_args(argv)
 
     os.makedirs(args.out_dir, exist_ok=True)
-    shutil.copyfile(args.config_path, os.path.join(args.out_dir, "ht_config.h"))
+    with open(args.config_path) as config, open_output(os.path.join(args.out_dir, "ht_config.h")) as f:
+        shutil.copyfileobj(config, f)
 
     header_file = os.path.join(args.out_dir, 'hawktracer.h')
     source_file = os.path.join(args.out_dir, 'hawktracer.' + ('cpp' if args.cpp else 'c'))
-- 
2.43.0


From a5369f3c03ace36ea3722d940916d969656b1255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:33 +0000
Subject: [PATCH 43/79] fix: scan only C/C++ and LUA source files for
 tracepoints

The regular expressions of the files were not anchored, so every file was
scanned if there was e.g. '.c' anywhere in its path.
---
 tools/generate_tracepoint_labels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/generate_tracepoint_labels.py b/tools/generate_tracepoint_labels.py
index f60378c..41520ad 100644
--- a/tools/generate_tracepoint_labels.py
+++ b/tools/generate_tracepoint_labels.py
@@ -142,11 +142,11 @@ def run_program(argv):
 
     languages = [
         LanguageSupport(
-            LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cpp|h|hpp)',
+            LanguageSupportArgs(parser, 'cpp', 'C/C++', '.*\.(c|cc|cpp|cxx|h|hh|hpp|hxx)$',
                                 '^\s*HT_TP_GLOBAL_SCOPED_INT\s*\(([_A-Za-z][A-Za-z_0-9]*)\)\s*;\s*$'),
             generate_c_cpp_header),
         LanguageSupport(
-            LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua',
+            LanguageSupportArgs(parser, 'lua', 'LUA', '.*\.lua$',
                                 '^\s*--@TracepointStart\s+([_A-Za-z][A-Za-z_0-9]*)\s*$'),
             generate_lua_file)
     ]
-- 
2.43.0


From a9cfdd4a54d32e4c86909ae2989fcac89ec572fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:24 +0000
Subject: [PATCH 44/79] fix: report memory usage of processes which use no
 memory

All counters of kernel threads and of processes which are about to end
are 0, and they were refused because the text is too short.
---
 lib/platform/linux/memory_usage.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/platform/linux/memory_usage.c b/lib/platform/linux/memory_usage.c
index 617c8a9..b7f733d 100644
--- a/lib/platform/linux/memory_usage.c
+++ b/lib/platform/linux/memory_usage.c
@@ -62,11 +62,6 @@ ht_memory_usage_get_usage(HT_MemoryUsageContext* context,
     size_t num = fread(buf, 1, sizeof(buf) - 1, fp);
     fclose(fp);
 
-    if (num < 16)
-    {
-        return HT_ERR_INVALID_FORMAT;
-    }
-
     buf[num] = '\0';
 
     if (sscanf(buf, "%llu %llu %llu", &virt_mem, &resident_mem, &shared_mem) != 3)
-- 
2.43.0


From 79148b7dce47f9cc1ce107178f113bba77e5c24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:01 +0000
Subject: [PATCH 45/79] fix: trace Python methods and functions called with
 keyword arguments

---
 bindings/python3/hawktracer_core_python.cpp | 43 +++++++++++++++------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 36ced90..2690dee 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -9,9 +9,11 @@ static HT_Boolean is_initialized = HT_FALSE;
 static PyObject* tracepoint_map = NULL;
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args);
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject* kwargs);
 
-static PyMethodDef ht_python_core_trace_function_md = {"trace_function", ht_python_core_trace_function, METH_VARARGS, ""};
+static PyMethodDef ht_python_core_trace_function_md = {
+    "trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""
+};
 
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
@@ -35,15 +37,10 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
 }
 
 static PyObject*
-ht_python_core_trace_function(PyObject* function, PyObject *args)
+ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject* kwargs)
 {
     uintptr_t address = 0;
 
-    if (!PyCallable_Check(function))
-    {
-        Py_RETURN_NONE;
-    }
-
     if (tracing_enabled)
     {
         PyObject* function_name_attr = PyObject_GetAttrString(function, "__name__");
@@ -56,7 +53,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args)
         }
     }
 
-    PyObject* ret = PyEval_CallObject(function, args);
+    PyObject* ret = PyObject_Call(function, args, kwargs);
 
     if (address)
     {
@@ -66,6 +63,20 @@ ht_python_core_trace_function(PyObject* function, PyObject *args)
     return ret;
 }
 
+/* Objects which get the instance as a first argument when they're called through an attribute of a class. */
+static bool
+ht_python_core_is_unbound_method(PyObject* function)
+{
+#ifdef Py_TPFLAGS_METHOD_DESCRIPTOR
+    if (PyType_HasFeature(Py_TYPE(function), Py_TPFLAGS_METHOD_DESCRIPTOR))
+    {
+        return true;
+    }
+#endif
+
+    return PyFunction_Check(function) || PyInstanceMethod_Check(function);
+}
+
 static PyObject *
 ht_python_core_trace(PyObject* Py_UNUSED(self), PyObject* args)
 {
@@ -76,9 +87,19 @@ ht_python_core_trace(PyObject* Py_UNUSED(self), PyObject* args)
         return NULL;
     }
 
-    if (trace_method)
+    /* objects which can't be called (e.g. property) are not functions to trace, but they must keep working */
+    if (trace_method && PyCallable_Check(traced_function))
     {
-        return PyCFunction_New(trace_method, traced_function);
+        PyObject* tracer = PyCFunction_New(trace_method, traced_function);
+
+        if (tracer && ht_python_core_is_unbound_method(traced_function))
+        {
+            PyObject* method = PyInstanceMethod_New(tracer);
+            Py_DECREF(tracer);
+            return method;
+        }
+
+        return tracer;
     }
     else
     {
-- 
2.43.0


From 781c4ce3292ea609bef143a08d89729ab1d5e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:01 +0000
Subject: [PATCH 46/79] fix: call traced Python objects which don't have a
 valid name

---
 bindings/python3/hawktracer_core_python.cpp | 36 ++++++++++++++++++---
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 2690dee..771d618 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -15,18 +15,35 @@ static PyMethodDef ht_python_core_trace_function_md = {
     "trace_function", (PyCFunction)(void(*)(void))ht_python_core_trace_function, METH_VARARGS | METH_KEYWORDS, ""
 };
 
+/* Returns 0 (and sets Python exception) if the function doesn't have a valid name. */
 static uintptr_t
 ht_python_core_get_label_address(PyObject* function_name_attr)
 {
+    if (!PyUnicode_CheckExact(function_name_attr))
+    {
+        PyErr_SetString(PyExc_TypeError, "function name must be a string");
+        return 0;
+    }
+
     if (!PyDict_Contains(tracepoint_map, function_name_attr))
     {
         /* TODO: improve cached string feature so it can handle custom pointers.
         Then we can simply push all the mapping to a listener if it's registered too late. */
         uintptr_t address = (uintptr_t)function_name_attr;
-        PyDict_SetItem(tracepoint_map, function_name_attr, PyLong_FromSize_t(address));
-        PyObject* function_name = PyUnicode_AsEncodedString(function_name_attr, "UTF-8", "strict");
-        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, PyBytes_AsString(function_name));
-        Py_DECREF(function_name);
+        const char* function_name = PyUnicode_AsUTF8(function_name_attr);
+        if (!function_name)
+        {
+            return 0;
+        }
+
+        PyObject* address_obj = PyLong_FromSize_t(address);
+        if (!address_obj || PyDict_SetItem(tracepoint_map, function_name_attr, address_obj) < 0)
+        {
+            Py_XDECREF(address_obj);
+            return 0;
+        }
+        Py_DECREF(address_obj);
+        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent, address, function_name);
 
         return address;
     }
@@ -48,9 +65,18 @@ ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject* kwar
         if (function_name_attr)
         {
             address = ht_python_core_get_label_address(function_name_attr);
-            ht_feature_callstack_start_int(ht_global_timeline_get(), address);
             Py_DECREF(function_name_attr);
         }
+
+        if (address)
+        {
+            ht_feature_callstack_start_int(ht_global_timeline_get(), address);
+        }
+        else
+        {
+            /* not every callable has a (valid) name; call it without tracing */
+            PyErr_Clear();
+        }
     }
 
     PyObject* ret = PyObject_Call(function, args, kwargs);
-- 
2.43.0


From 499ccc8c7873f078041a29d818050a00e725bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:14 +0000
Subject: [PATCH 47/79] fix: write all the events to the file when Python
 interpreter exits

---
 bindings/python3/hawktracer_core_python.cpp | 33 ++++++++++-----------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 771d618..d78d03e 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -2,9 +2,11 @@
 
 #include <Python.h>
 
+#include <vector>
+
 static PyMethodDef* trace_method = NULL;
 static HT_Boolean tracing_enabled = HT_FALSE;
-static HT_FileDumpListener* file_listener;
+static std::vector<HT_FileDumpListener*> file_listeners;
 static HT_Boolean is_initialized = HT_FALSE;
 static PyObject* tracepoint_map = NULL;
 
@@ -169,25 +171,21 @@ ht_python_core_disable_tracing(PyObject* Py_UNUSED(self), PyObject* Py_UNUSED(ig
     Py_RETURN_NONE;
 }
 
-static int
-ht_python_core_clear_module(PyObject* m)
+/* Called when the interpreter exits, so no Python function can be called here. */
+static void
+ht_python_core_at_exit(void)
 {
     if (is_initialized)
     {
         ht_timeline_flush(ht_global_timeline_get());
 
-        if (file_listener)
+        /* daemon threads might be still running, so HawkTracer can't be uninitialized */
+        for (HT_FileDumpListener* file_listener : file_listeners)
         {
             ht_file_dump_listener_stop(file_listener);
         }
-
-        ht_deinit();
+        file_listeners.clear();
     }
-
-    Py_DECREF(tracepoint_map);
-
-    Py_CLEAR(m);
-    return 0;
 }
 
 static PyObject*
@@ -207,18 +205,15 @@ ht_python_core_register_file_listener(PyObject* Py_UNUSED(self), PyObject* args)
         return NULL;
     }
 
-    /* TODO: check if file_listener is already defined, and if so - unregister and destroy it.
-       We need ht_timeline_unregister_listener to implement that.
-       In the future we might support multiple listeners as well.
-       */
-
-    file_listener = ht_file_dump_listener_register(ht_global_timeline_get(), file_path, buffer_size, &err);
+    HT_FileDumpListener* file_listener = ht_file_dump_listener_register(ht_global_timeline_get(), file_path, buffer_size, &err);
 
     if (!file_listener)
     {
         return PyErr_Format(PyExc_Exception, "Unable to initalize file listener. Error code: %d", err);
     }
 
+    file_listeners.push_back(file_listener);
+
     Py_RETURN_NONE;
 }
 
@@ -283,7 +278,7 @@ static struct PyModuleDef HawkTracer_Python_Core_module = {
     HawkTracer_methods,
     NULL,
     NULL,
-    ht_python_core_clear_module,
+    NULL,
     NULL
 };
 
@@ -303,6 +298,8 @@ PyInit_core(void)
         }
 
         tracepoint_map = PyDict_New();
+
+        Py_AtExit(ht_python_core_at_exit);
     }
 
     return module;
-- 
2.43.0


From 01bda591e2ac00b630dad4d8ea99a84f4a5aa132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:35 +0000
Subject: [PATCH 48/79] fix: call traced Python functions before HawkTracer is
 initialized

---
 bindings/python3/hawktracer_core_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index d78d03e..77ec5e9 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -60,7 +60,7 @@ ht_python_core_trace_function(PyObject* function, PyObject *args, PyObject* kwar
 {
     uintptr_t address = 0;
 
-    if (tracing_enabled)
+    if (tracing_enabled && ht_is_initialized())
     {
         PyObject* function_name_attr = PyObject_GetAttrString(function, "__name__");
 
-- 
2.43.0


From 7eddca2dc9c10119db9f1653583fdb693f0b0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:35 +0000
Subject: [PATCH 49/79] fix: send names of already traced Python functions to a
 new file listener

---
 bindings/python3/hawktracer_core_python.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bindings/python3/hawktracer_core_python.cpp b/bindings/python3/hawktracer_core_python.cpp
index 77ec5e9..e3f57f8 100644
--- a/bindings/python3/hawktracer_core_python.cpp
+++ b/bindings/python3/hawktracer_core_python.cpp
@@ -29,8 +29,6 @@ ht_python_core_get_label_address(PyObject* function_name_attr)
 
     if (!PyDict_Contains(tracepoint_map, function_name_attr))
     {
-        /* TODO: improve cached string feature so it can handle custom pointers.
-        Then we can simply push all the mapping to a listener if it's registered too late. */
         uintptr_t address = (uintptr_t)function_name_attr;
         const char* function_name = PyUnicode_AsUTF8(function_name_attr);
         if (!function_name)
@@ -188,6 +186,22 @@ ht_python_core_at_exit(void)
     }
 }
 
+/* A listener doesn't know names of the functions which were called before it was registered.
+   TODO: improve cached string feature so it can handle custom pointers, and use it instead. */
+static void
+ht_python_core_push_function_names(void)
+{
+    PyObject* function_name;
+    PyObject* address;
+    Py_ssize_t pos = 0;
+
+    while (PyDict_Next(tracepoint_map, &pos, &function_name, &address))
+    {
+        HT_TIMELINE_PUSH_EVENT(ht_global_timeline_get(), HT_StringMappingEvent,
+                               PyLong_AsSize_t(address), PyUnicode_AsUTF8(function_name));
+    }
+}
+
 static PyObject*
 ht_python_core_register_file_listener(PyObject* Py_UNUSED(self), PyObject* args)
 {
@@ -214,6 +228,8 @@ ht_python_core_register_file_listener(PyObject* Py_UNUSED(self), PyObject* args)
 
     file_listeners.push_back(file_listener);
 
+    ht_python_core_push_function_names();
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 000fbbadd184c1dd035057907f23f7601384ca6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 50/79] fix: deliver negative integers to Python clients

---
 bindings/python3/client_context.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index e0e8c84..7925faf 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -8,10 +8,14 @@ namespace Python
 
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
-#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+#define CREATE_UINT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
     case parser::FieldTypeId::HAWKTRACER_TYPE: \
     val = PyLong_FromUnsignedLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
     break;
+#define CREATE_INT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
+    case parser::FieldTypeId::HAWKTRACER_TYPE: \
+    val = PyLong_FromLongLong((C_TYPE)p.second.value.f_##HAWKTRACER_TYPE); \
+    break;
 
     PyObject* dict = PyDict_New();
 
@@ -20,8 +24,9 @@ static PyObject* event_to_dictionary(const parser::Event& event)
         PyObject* val = nullptr;
         switch (p.second.field->get_type_id())
         {
-        MKCREFLECT_FOREACH(CREATE_INT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
+        MKCREFLECT_FOREACH(CREATE_UINT_TYPE, uint64_t, UINT8, UINT16, UINT32, UINT64, POINTER)
         MKCREFLECT_FOREACH(CREATE_INT_TYPE, int64_t, INT8, INT16, INT32, INT64)
+#undef CREATE_UINT_TYPE
 #undef CREATE_INT_TYPE
         case parser::FieldTypeId::STRING:
             val = PyUnicode_FromString(p.second.value.f_STRING);
-- 
2.43.0


From f30ce663936e2f18a103955e5ec5cc9da6bdd315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 51/79] fix: release events delivered to Python clients

---
 bindings/python3/client_context.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 7925faf..bbc943d 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -40,7 +40,8 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItem(dict, PyUnicode_FromString(p.first.c_str()), val);
+        PyDict_SetItemString(dict, p.first.c_str(), val);
+        Py_DECREF(val);
     }
 
     return dict;
@@ -86,12 +87,12 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sO", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("sN", evt.get_klass()->get_name().c_str(), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sO)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
 
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
-- 
2.43.0


From 1179ec373d001f97ee864517e8115bccf8ef2bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 52/79] fix: never use Python objects without holding GIL, and
 don't block on it when stopping a client

---
 bindings/python3/client_context.cpp | 13 ++++++++++++-
 bindings/python3/client_context.hpp |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index bbc943d..750979b 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -70,12 +70,23 @@ Context::Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event)
 
 Context::~Context()
  {
+     stop();
      if (_on_new_event)
      {
          Py_DECREF(_on_new_event);
      }
  }
 
+void Context::stop()
+{
+    // the reading thread might be calling the callback
+    Py_BEGIN_ALLOW_THREADS
+
+    _reader.stop();
+
+    Py_END_ALLOW_THREADS
+}
+
 PyObject* Context::poll_event()
 {
     std::lock_guard<std::mutex> l(_events_mtx);
@@ -92,8 +103,8 @@ PyObject* Context::poll_event()
 
 void Context::_trigger_callback(const parser::Event& event)
 {
-    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
     PyGILState_STATE gstate = PyGILState_Ensure();
+    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
 
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index d823caf..a259e6c 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -22,7 +22,7 @@ public:
     ~Context();
 
     void start() { _reader.start(); }
-    void stop() { _reader.stop(); }
+    void stop();
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
     void wait_for_complete() { _reader.wait_for_complete(); }
-- 
2.43.0


From 49c3b7ae1128937acb4181e4338c896870a71259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 53/79] fix: raise an exception if a Python client which is not
 started is used

---
 bindings/python3/hawktracer_client_python.cpp | 31 +++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index f72eb00..7f1e8e5 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -16,6 +16,17 @@ struct HT_Python_Client
     Context* context;
 };
 
+static bool
+client_is_started(HT_Python_Client* self)
+{
+    if (!self->context)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "client is not started");
+    }
+
+    return self->context != nullptr;
+}
+
 static PyObject *
 client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 {
@@ -69,6 +80,11 @@ client_start(HT_Python_Client* self, PyObject* args)
 static PyObject *
 client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_is_started(self))
+    {
+        return nullptr;
+    }
+
     self->context->stop();
     Py_RETURN_NONE;
 }
@@ -76,12 +92,22 @@ client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_is_started(self))
+    {
+        return nullptr;
+    }
+
     return self->context->poll_event();
 }
 
 static PyObject *
 client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_is_started(self))
+    {
+        return nullptr;
+    }
+
     Py_BEGIN_ALLOW_THREADS
 
     self->context->wait_for_complete();
@@ -93,6 +119,11 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 static PyObject *
 client_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
 {
+    if (!client_is_started(self))
+    {
+        return nullptr;
+    }
+
     return PyBool_FromLong(self->context->eos());
 }
 
-- 
2.43.0


From 8d21daf5d5f22dc196f1fee146c6524aec4b1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 54/79] fix: accept None as a callback of a Python client

---
 bindings/python3/hawktracer_client_python.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 7f1e8e5..96fb78f 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -55,6 +55,11 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
+    if (callback_obj == Py_None)
+    {
+        callback_obj = nullptr;
+    }
+
     if (callback_obj && !PyCallable_Check(callback_obj))
     {
         PyErr_SetString(PyExc_TypeError, "parameter must be callable");
-- 
2.43.0


From 4b74784c9eb29ee0c86945b0e2657863910bb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:10 +0000
Subject: [PATCH 55/79] fix: deliver events with strings which are not valid
 UTF-8 to Python clients

---
 bindings/python3/client_context.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index 750979b..d310a58 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -1,11 +1,19 @@
 #include "client_context.hpp"
 #include "hawktracer/parser/event.hpp"
 
+#include <cstring>
+
 namespace HawkTracer
 {
 namespace Python
 {
 
+// a stream can contain any bytes, so strings which are not valid UTF-8 must not make an event disappear
+static PyObject* string_to_unicode(const char* str)
+{
+    return PyUnicode_DecodeUTF8(str, static_cast<Py_ssize_t>(strlen(str)), "surrogateescape");
+}
+
 static PyObject* event_to_dictionary(const parser::Event& event)
 {
 #define CREATE_UINT_TYPE(HAWKTRACER_TYPE, C_TYPE) \
@@ -29,7 +37,7 @@ static PyObject* event_to_dictionary(const parser::Event& event)
 #undef CREATE_UINT_TYPE
 #undef CREATE_INT_TYPE
         case parser::FieldTypeId::STRING:
-            val = PyUnicode_FromString(p.second.value.f_STRING);
+            val = string_to_unicode(p.second.value.f_STRING);
             break;
         default:
             break;
@@ -40,7 +48,9 @@ static PyObject* event_to_dictionary(const parser::Event& event)
             continue;
         }
 
-        PyDict_SetItemString(dict, p.first.c_str(), val);
+        PyObject* key = string_to_unicode(p.first.c_str());
+        PyDict_SetItem(dict, key, val);
+        Py_DECREF(key);
         Py_DECREF(val);
     }
 
@@ -98,13 +108,13 @@ PyObject* Context::poll_event()
     parser::Event evt = _events.front();
     PyObject* py_event = event_to_dictionary(evt);
     _events.pop();
-    return Py_BuildValue("sN", evt.get_klass()->get_name().c_str(), py_event);
+    return Py_BuildValue("NN", string_to_unicode(evt.get_klass()->get_name().c_str()), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
-    PyObject* arglist = Py_BuildValue("(sN)", event.get_klass()->get_name().c_str(), event_to_dictionary(event));
+    PyObject* arglist = Py_BuildValue("(NN)", string_to_unicode(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
 
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
     Py_DECREF(arglist);
-- 
2.43.0


From a4829199b9b64b54e928202d6d4322f59a4c88a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:39 +0000
Subject: [PATCH 56/79] fix: allow callbacks of the protocol reader to stop it

---
 parser/protocol_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index bbfa5d9..95f7271 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -59,6 +59,11 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
+    if (_thread.get_id() == std::this_thread::get_id())
+    {
+        // called by one of the callbacks, reading ends as soon as it returns
+        return;
+    }
     if (_stream->is_continuous())
     {
         // the reading thread might be waiting for data which never comes
-- 
2.43.0


From 181a02ec133d46df6fefb3f960add0bab62a624f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:31 +0000
Subject: [PATCH 57/79] fix: release events that were not polled before their
 classes

---
 bindings/python3/client_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index a259e6c..51a43a7 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -30,9 +30,9 @@ public:
 private:
     void _trigger_callback(const parser::Event& event);
 
-    std::mutex _events_mtx;
-    std::queue<parser::Event> _events;
     parser::KlassRegister _klass_register;
+    std::mutex _events_mtx;
+    std::queue<parser::Event> _events; // events use klasses from the register
     parser::ProtocolReader _reader;
     PyObject* _on_new_event = nullptr;
 };
-- 
2.43.0


From 62595b2b2324e723efeccd377919017754e97bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 58/79] fix: never define events in every user of the
 amalgamated header, in whatever order the headers are found

---
 tools/amalgamate.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/amalgamate.py b/tools/amalgamate.py
index 254043c..45714a5 100644
--- a/tools/amalgamate.py
+++ b/tools/amalgamate.py
@@ -46,7 +46,9 @@ def open_output(path):
     os.replace(tmp_path, path)
 
 
-skip_headers = ['hawktracer/event_macros_impl.h']
+# Headers which make event declarations define the event functions as well. They have to follow all the headers which
+# declare the events of the library; otherwise every file that includes the library header defines their functions.
+trailing_headers = ['hawktracer/event_macros_impl.h']
 
 platform_features = [
     ConditionalFeature(
@@ -262,7 +264,8 @@ class Amalgamator:
             f.write("#ifndef {}\n".format(header_guard))
             f.write("#define {}\n\n".format(header_guard))
 
-            for header in self._headers.get_public_header_graph().topology_sort():
+            headers = self._headers.get_public_header_graph().topology_sort()
+            for header in [h for h in headers if h not in trailing_headers] + trailing_headers:
                 header_file_dumper.dump_file(header)
 
             f.write("#endif /* {} */\n".format(header_guard))
-- 
2.43.0


From accb346fd0319283512691084d885dcec1f11a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 59/79] fix: make tracepoints with static labels usable in C
 without including pthread.h

---
 lib/include/hawktracer/string_scoped_tracepoint.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/hawktracer/string_scoped_tracepoint.h b/lib/include/hawktracer/string_scoped_tracepoint.h
index 448cc2e..df8a761 100644
--- a/lib/include/hawktracer/string_scoped_tracepoint.h
+++ b/lib/include/hawktracer/string_scoped_tracepoint.h
@@ -23,10 +23,12 @@
 
 #include <hawktracer/posix_mapped_tracepoint.h>
 
+#include <pthread.h>
+
 #define HT_TP_STRACEPOINT(timeline, label) \
     static HT_THREAD_LOCAL pthread_once_t HT_UNIQUE_VAR_NAME(ht_var_once) = PTHREAD_ONCE_INIT; \
-    static HT_THREAD_LOCAL uintptr_t HT_UNIQUE_VAR_NAME(fnc_track) = label; \
-    ht_pthread_mapped_tracepoint_enter(timeline, HT_UNIQUE_VAR_NAME(fnc_track)); \
+    static HT_THREAD_LOCAL uintptr_t HT_UNIQUE_VAR_NAME(fnc_track) = (uintptr_t)(label); \
+    ht_pthread_mapped_tracepoint_enter(timeline, (const char*)HT_UNIQUE_VAR_NAME(fnc_track)); \
     pthread_once(&HT_UNIQUE_VAR_NAME(ht_var_once), ht_pthread_mapped_tracepoint_add_mapping); \
     ht_pthread_mapped_tracepoint_leave(); \
     HT_TP_SCOPED_INT(timeline, (uintptr_t)HT_UNIQUE_VAR_NAME(fnc_track));
-- 
2.43.0


From a1c3e966459fd2ddfbac461a827168e6175f102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:46 +0000
Subject: [PATCH 60/79] fix: allow several tracepoints in one scope in C

---
 lib/include/hawktracer/scoped_tracepoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/hawktracer/scoped_tracepoint.h b/lib/include/hawktracer/scoped_tracepoint.h
index 45f3834..9327ebb 100644
--- a/lib/include/hawktracer/scoped_tracepoint.h
+++ b/lib/include/hawktracer/scoped_tracepoint.h
@@ -21,7 +21,7 @@ HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const c
 HT_DECLS_END
 
 #define HT_TP_SCOPED_GENERIC_(type, c_type, callstack_timeline, label) \
-    HT_Timeline* _ht_callstack_timeline __attribute__ ((__cleanup__(_ht_callstack_timeline_scoped_cleanup))) \
+    HT_Timeline* HT_UNIQUE_VAR_NAME(_ht_callstack_timeline) __attribute__ ((__cleanup__(_ht_callstack_timeline_scoped_cleanup))) \
         = _ht_callstack_timeline_##type##_start_and_ret(callstack_timeline, label)
 
 #endif
-- 
2.43.0


From 26c6458f3e8c59bf4cc7b00b67963acdeaa3fb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 61/79] fix: let C code use tracepoints of the library
 amalgamated to C++

---
 lib/scoped_tracepoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/scoped_tracepoint.c b/lib/scoped_tracepoint.c
index 367e401..1791afc 100644
--- a/lib/scoped_tracepoint.c
+++ b/lib/scoped_tracepoint.c
@@ -2,6 +2,9 @@
 
 #ifdef __GNUC__
 
+/* Used by C code only, therefore the header does not declare them for C++ (e.g. amalgamated C++ source). */
+HT_DECLS_BEGIN
+
 void _ht_callstack_timeline_scoped_cleanup(HT_Timeline** timeline)
 {
     ht_feature_callstack_stop(*timeline);
@@ -19,4 +22,6 @@ HT_Timeline* _ht_callstack_timeline_string_start_and_ret(HT_Timeline* t, const c
     return t;
 }
 
+HT_DECLS_END
+
 #endif /* __GNUC__ */
-- 
2.43.0


From e6633f54a400afd6621b738e62f4ba2ee531e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:37 +0000
Subject: [PATCH 62/79] fix: let the allocation hooks be amalgamated to C++

---
 lib/platform/linux/alloc_hooks.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/platform/linux/alloc_hooks.c b/lib/platform/linux/alloc_hooks.c
index ac672e9..edeaefd 100644
--- a/lib/platform/linux/alloc_hooks.c
+++ b/lib/platform/linux/alloc_hooks.c
@@ -12,11 +12,15 @@ static HT_AllocHookFree _pre_free_hook = NULL;
 static HT_AllocHookFree _post_free_hook = NULL;
 static void* _hook_user_data = NULL;
 
+HT_DECLS_BEGIN
+
 extern void *__libc_malloc(size_t);
 extern void *__libc_calloc(size_t, size_t);
 extern void __libc_free(void*);
 extern void* __libc_realloc(void*, size_t);
 
+HT_DECLS_END
+
 
 #if defined (__THROW)
 #  ifdef __cplusplus
-- 
2.43.0


From 9be8ce54647366e3fab02f7d3d8d1e238c30492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:24 +0000
Subject: [PATCH 63/79] fix: let destructors use the global timeline of an
 exiting thread

---
 lib/global_timeline.cpp | 98 +++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 39 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index 614c10d..0460224 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -15,9 +15,9 @@ ht_global_timeline_get_buffer_size(void)
     return global_timeline_buffer_size;
 }
 
-static HT_Timeline* _ht_global_timeline_create(void)
+static HT_Timeline* _ht_global_timeline_create(size_t buffer_size)
 {
-    HT_Timeline* c_timeline = ht_timeline_create(global_timeline_buffer_size, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", NULL);
+    HT_Timeline* c_timeline = ht_timeline_create(buffer_size, HT_FALSE, HT_TRUE, "HT_GlobalTimeline", NULL);
 
     ht_feature_callstack_enable(c_timeline);
     ht_feature_cached_string_enable(c_timeline, HT_FALSE);
@@ -38,68 +38,88 @@ HT_Timeline* ht_global_timeline_get(void)
     if (!timeline)
     {
         // TODO memory leak
-        timeline = _ht_global_timeline_create();
+        timeline = _ht_global_timeline_create(global_timeline_buffer_size);
     }
 
     return timeline;
 }
 
-#elif defined(HT_CPP11)
-struct GlobalTimeline
-{
-    GlobalTimeline()
-    {
-        /* TODO: handle ht_timeline_create() error? */
-        c_timeline = _ht_global_timeline_create();
-    }
+#else
 
-    ~GlobalTimeline()
-    {
-        ht_timeline_destroy(c_timeline);
-    }
+#if defined(HT_HAVE_UNISTD_H)
+#  include <unistd.h>
+#  ifdef _POSIX_VERSION
+#    include <pthread.h>
+#  endif
+#endif
 
-    HT_Timeline* c_timeline;
-};
+static HT_THREAD_LOCAL HT_Timeline* thread_timeline = NULL;
+static HT_THREAD_LOCAL HT_Boolean thread_is_exiting = HT_FALSE;
 
-HT_Timeline* ht_global_timeline_get(void)
+static void _ht_destroy_thread_timeline(void)
 {
-    static HT_THREAD_LOCAL GlobalTimeline timeline;
-
-    return timeline.c_timeline;
+    thread_is_exiting = HT_TRUE;
+    if (thread_timeline)
+    {
+        ht_timeline_destroy(thread_timeline);
+        thread_timeline = NULL;
+    }
 }
 
-#elif defined(HT_HAVE_UNISTD_H)
-#  include <unistd.h>
-#  ifdef _POSIX_VERSION
-
-#include <pthread.h>
-
+#ifdef _POSIX_VERSION
 static pthread_key_t timeline_key;
 static pthread_once_t timeline_once_control = PTHREAD_ONCE_INIT;
 
-static void _ht_destroy_timeline(void* timeline)
+static void _ht_timeline_key_destroy(void* timeline)
 {
-    ht_timeline_destroy((HT_Timeline*)timeline);
+    HT_UNUSED(timeline);
+    _ht_destroy_thread_timeline();
 }
 
 static void create_key(void)
 {
-    pthread_key_create(&timeline_key, _ht_destroy_timeline);
+    pthread_key_create(&timeline_key, _ht_timeline_key_destroy);
 }
+#endif
 
-HT_Timeline* ht_global_timeline_get(void)
+#ifdef HT_CPP11
+struct GlobalTimelineGuard
 {
-    static HT_THREAD_LOCAL HT_Timeline* c_timeline = NULL;
+    ~GlobalTimelineGuard()
+    {
+        _ht_destroy_thread_timeline();
+    }
+};
+#endif
 
-    if (!c_timeline)
+static void _ht_destroy_timeline_at_thread_exit(void)
+{
+#ifdef HT_CPP11
+    if (!thread_is_exiting)
     {
-        c_timeline = _ht_global_timeline_create();
-        pthread_once(&timeline_once_control, create_key);
-        pthread_setspecific(timeline_key, c_timeline);
+        static HT_THREAD_LOCAL GlobalTimelineGuard guard;
+        HT_UNUSED(guard);
+        return;
     }
+#endif
+#ifdef _POSIX_VERSION
+    pthread_once(&timeline_once_control, create_key);
+    pthread_setspecific(timeline_key, thread_timeline);
+#endif
+}
 
-    return c_timeline;
+HT_Timeline* ht_global_timeline_get(void)
+{
+    if (!thread_timeline)
+    {
+        /* Destructors of other thread-local objects might use the timeline after it was destroyed. They get
+           a new one, which isn't buffered, because it might never be flushed.
+           TODO: handle ht_timeline_create() error? */
+        thread_timeline = _ht_global_timeline_create(thread_is_exiting ? 1 : global_timeline_buffer_size);
+        _ht_destroy_timeline_at_thread_exit();
+    }
+
+    return thread_timeline;
 }
 
-#  endif
-#endif
\ No newline at end of file
+#endif
-- 
2.43.0


From a37480c59b6a69ce822a1323b14404e04910480f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 64/79] fix: report lost data when the file dump listener is
 flushed, and don't leave a hole in the file

---
 lib/listeners/file_dump_listener.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/listeners/file_dump_listener.c b/lib/listeners/file_dump_listener.c
index 9a34dde..5857d0b 100644
--- a/lib/listeners/file_dump_listener.c
+++ b/lib/listeners/file_dump_listener.c
@@ -24,6 +24,12 @@ _ht_file_dump_listener_flush(void* listener, HT_Byte* data, size_t size)
 {
     HT_FileDumpListener* fd_listener = (HT_FileDumpListener*) listener;
 
+    if (ferror(fd_listener->p_file))
+    {
+        /* Some data has already been lost, everything that follows would be misinterpreted */
+        return;
+    }
+
     fwrite(data, sizeof(HT_Byte), size, fd_listener->p_file);
 }
 
@@ -111,7 +117,7 @@ ht_file_dump_listener_flush(HT_FileDumpListener* listener, HT_Boolean flush_stre
 
     if (flush_stream == HT_TRUE)
     {
-        if (fflush(listener->p_file) != 0)
+        if (fflush(listener->p_file) != 0 || ferror(listener->p_file))
         {
             ret = HT_ERR_UNKNOWN;
         }
-- 
2.43.0


From 8b1b0b198b96920edafcecc1eddcb8b05f30b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 65/79] fix: make the duration macros 64-bit wide and
 parenthesise their arguments

---
 lib/include/hawktracer/duration_conversion.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/hawktracer/duration_conversion.h b/lib/include/hawktracer/duration_conversion.h
index 7a09e54..6f38d85 100644
--- a/lib/include/hawktracer/duration_conversion.h
+++ b/lib/include/hawktracer/duration_conversion.h
@@ -1,13 +1,15 @@
 #ifndef HAWKTRACER_DURATION_CONVERSION_H
 #define HAWKTRACER_DURATION_CONVERSION_H
 
+#include <stdint.h>
+
 /** Converts @p X value to nanoseconds. */
-#define HT_DUR_NS(X) X
+#define HT_DUR_NS(X) (X)
 /** Converts @p X value to microseconds. */
-#define HT_DUR_US(X) (1000u * X)
+#define HT_DUR_US(X) ((uint64_t)1000u * (X))
 /** Converts @p X value to milliseconds. */
-#define HT_DUR_MS(X) (1000u * HT_DUR_US(X))
+#define HT_DUR_MS(X) ((uint64_t)1000u * HT_DUR_US(X))
 /** Converts @p X value to seconds. */
-#define HT_DUR_S(X) (1000u * HT_DUR_MS(X))
+#define HT_DUR_S(X) ((uint64_t)1000u * HT_DUR_MS(X))
 
 #endif /* HAWKTRACER_DURATION_CONVERSION_H */
-- 
2.43.0


From 0db4b93a29b54f45832283224ed760a48c02878b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 66/79] fix: don't capture the caller's variables in
 HT_TIMELINE_PUSH_EVENT, evaluate the timeline once

---
 lib/include/hawktracer/timeline.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/include/hawktracer/timeline.h b/lib/include/hawktracer/timeline.h
index 07aaa39..056386b 100644
--- a/lib/include/hawktracer/timeline.h
+++ b/lib/include/hawktracer/timeline.h
@@ -155,13 +155,17 @@ HT_API HT_EventIdProvider* ht_timeline_get_id_provider(HT_Timeline* timeline);
  * @a ht_base_event that represents the #HT_Event base instance. For example, to push
  * @a SubEvent to a timeline, you should do:
  * @code
- * struct SubEvent {
+ * struct BaseEvent {
  *   HT_Event base;
  *   int field1;
+ * };
+ *
+ * struct SubEvent {
+ *   BaseEvent base;
  *   float field2;
  * };
  *
- * HT_TIMELINE_PUSH_EVENT_PEDANTIC(timeline, SubEvent, {{ht_base_event}, 3, 9.3f});
+ * HT_TIMELINE_PUSH_EVENT_PEDANTIC(timeline, SubEvent, {ht_base_event, 3}, 9.3f);
  * @endcode
  *
  * The macro allows you to push events without generating compiler warnings
@@ -173,13 +177,14 @@ HT_API HT_EventIdProvider* ht_timeline_get_id_provider(HT_Timeline* timeline);
  */
 #define HT_TIMELINE_PUSH_EVENT_PEDANTIC(TIMELINE, EVENT_TYPE, ...) \
     do { \
+        HT_Timeline* ht_event_timeline_ = (TIMELINE); \
         HT_Event ht_base_event = { \
             ht_##EVENT_TYPE##_get_event_klass_instance(), \
             ht_monotonic_clock_get_timestamp(), \
-            ht_event_id_provider_next(ht_timeline_get_id_provider(TIMELINE)) \
+            ht_event_id_provider_next(ht_timeline_get_id_provider(ht_event_timeline_)) \
         }; \
-        EVENT_TYPE ev = {__VA_ARGS__}; \
-        ht_timeline_push_event(TIMELINE, HT_EVENT(&ev)); \
+        EVENT_TYPE ht_event_to_push_ = {__VA_ARGS__}; \
+        ht_timeline_push_event(ht_event_timeline_, HT_EVENT(&ht_event_to_push_)); \
     } while (0)
 
 HT_DECLS_END
-- 
2.43.0


From 3858f14b4070626a7548902a9f7d572398c1a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:34 +0000
Subject: [PATCH 67/79] fix: include <cstdint> where its types are used

---
 client/tracepoint_map.hpp                   | 1 +
 parser/include/hawktracer/parser/stream.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/client/tracepoint_map.hpp b/client/tracepoint_map.hpp
index edc964f..d9cb214 100644
--- a/client/tracepoint_map.hpp
+++ b/client/tracepoint_map.hpp
@@ -1,6 +1,7 @@
 #ifndef HAWKTRACER_CLIENT_TRACEPOINT_MAP_HPP
 #define HAWKTRACER_CLIENT_TRACEPOINT_MAP_HPP
 
+#include <cstdint>
 #include <string>
 #include <unordered_map>
 
diff --git a/parser/include/hawktracer/parser/stream.hpp b/parser/include/hawktracer/parser/stream.hpp
index 75f7dd2..8457a8f 100644
--- a/parser/include/hawktracer/parser/stream.hpp
+++ b/parser/include/hawktracer/parser/stream.hpp
@@ -1,6 +1,7 @@
 #ifndef HAWKTRACER_PARSER_STREAM_HPP
 #define HAWKTRACER_PARSER_STREAM_HPP
 
+#include <cstdint>
 #include <string>
 
 namespace HawkTracer
-- 
2.43.0


From c6e3423c6c96e30e798d3efaee34259789b9bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 68/79] fix: file stream without a source has no bytes,
 starting it again starts over

---
 parser/file_stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/file_stream.cpp b/parser/file_stream.cpp
index b8cdeb0..3046c91 100644
--- a/parser/file_stream.cpp
+++ b/parser/file_stream.cpp
@@ -15,6 +15,7 @@ FileStream::~FileStream()
 
 bool FileStream::start()
 {
+    stop();
     _file = fopen(_file_name.c_str(), "rb");
     return _file != nullptr;
 }
@@ -30,12 +31,12 @@ void FileStream::stop()
 
 bool FileStream::read_data(char* buff, size_t size)
 {
-    return fread(buff, 1, size, _file) == size;
+    return _file && fread(buff, 1, size, _file) == size;
 }
 
 int FileStream::read_byte()
 {
-    return fgetc(_file);
+    return _file ? fgetc(_file) : -1;
 }
 
 } // namespace parser
-- 
2.43.0


From 5524e3b11ea20e6109084e4545b4cbf66c2dab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 69/79] fix: TCP client stream survives signals, stops while
 waiting for the server and never delivers bytes of an earlier connection

---
 client_utils/tcp_client_stream.cpp | 39 +++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/client_utils/tcp_client_stream.cpp b/client_utils/tcp_client_stream.cpp
index 8b1d73a..9ea32bf 100644
--- a/client_utils/tcp_client_stream.cpp
+++ b/client_utils/tcp_client_stream.cpp
@@ -6,9 +6,11 @@
 #pragma comment(lib, "Ws2_32.lib")
 #else
 #include <arpa/inet.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <unistd.h>
 #endif
+#include <cerrno>
 #include <cstring>
 
 namespace HawkTracer
@@ -35,6 +37,27 @@ static int shutdown_socket(int sock_fd)
 #endif
 }
 
+static bool connect_socket(int sock_fd, const struct sockaddr_in& address)
+{
+    if (connect(sock_fd, (const struct sockaddr*)&address, sizeof(address)) == 0)
+    {
+        return true;
+    }
+#ifndef _WIN32
+    if (errno == EINTR)
+    {
+        // the socket is still connecting; another connect() would be an error
+        struct pollfd fds = {sock_fd, POLLOUT, 0};
+        while (poll(&fds, 1, -1) < 0 && errno == EINTR) {}
+
+        int error = 0;
+        socklen_t size = sizeof(error);
+        return getsockopt(sock_fd, SOL_SOCKET, SO_ERROR, &error, &size) == 0 && error == 0;
+    }
+#endif
+    return false;
+}
+
 TCPClientStream::TCPClientStream(const std::string& ip_address, uint16_t port, bool wait_for_server) :
     _sock_fd(-1),
     _ip_address(ip_address),
@@ -51,6 +74,7 @@ TCPClientStream::~TCPClientStream()
 bool TCPClientStream::start()
 {
     stop();
+    _datas = decltype(_datas)(); // bytes of the previous connection nobody has read
 
 #ifdef _WIN32
     WSAData wsa_data;
@@ -75,14 +99,18 @@ bool TCPClientStream::start()
 
     if (_wait_for_server)
     {
-        while (connect(_sock_fd, (struct sockaddr*)&serveraddr, sizeof(serveraddr)) < 0)
+        while (!connect_socket(_sock_fd, serveraddr))
         {
             std::this_thread::sleep_for(std::chrono::milliseconds(10));
+            if (!is_connected())
+            {
+                return false; // stopped while waiting for the server
+            }
         }
     }
     else
     {
-        if (connect(_sock_fd, (struct sockaddr*)&serveraddr, sizeof(serveraddr)) < 0)
+        if (!connect_socket(_sock_fd, serveraddr))
         {
             stop();
             return false;
@@ -137,7 +165,12 @@ void TCPClientStream::_run()
     while (is_connected())
     {
         int size = recv(_sock_fd, buf, BUFSIZE, 0);
-        
+
+        if (size == -1 && errno == EINTR)
+        {
+            continue;
+        }
+
         if (size == 0 || size == -1)
         {
             _close();
-- 
2.43.0


From f907e454c842501232fc2f7681033aa02aaec1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 70/79] fix: report failure to start the TCP server thread and
 read the server socket under the lock

---
 lib/tcp_server.cpp | 58 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/lib/tcp_server.cpp b/lib/tcp_server.cpp
index 12e5713..5946327 100644
--- a/lib/tcp_server.cpp
+++ b/lib/tcp_server.cpp
@@ -28,6 +28,7 @@
 #endif
 
 #ifdef HT_THREAD_IMPL_CPP11
+#  include <system_error>
 #  include <thread>
 #elif defined(HT_THREAD_IMPL_WIN32)
 #  include <windows.h>
@@ -64,11 +65,29 @@ ht_thread_create(ht_thread_callback_t callback, void* user_data)
 
 #ifdef HT_THREAD_IMPL_CPP11
     new(&th->th) HT_Thread();
-    th->th = std::thread(callback, user_data);
+    try
+    {
+        th->th = std::thread(callback, user_data);
+    }
+    catch (const std::system_error&)
+    {
+        th->th.~thread();
+        ht_free(th);
+        return NULL;
+    }
 #elif defined(HT_THREAD_IMPL_POSIX)
-    pthread_create(&th->th, NULL, callback, user_data);
+    if (pthread_create(&th->th, NULL, callback, user_data) != 0)
+    {
+        ht_free(th);
+        return NULL;
+    }
 #elif defined(HT_THREAD_IMPL_WIN32)
     th->th = CreateThread(NULL, 0, callback, user_data, 0, NULL);
+    if (th->th == NULL)
+    {
+        ht_free(th);
+        return NULL;
+    }
 #endif
 
     return th;
@@ -133,6 +152,8 @@ _ht_tcp_close_socket(int sock_fd)
 
 static void *_ht_tcp_server_run(void *user_data);
 
+static int _ht_tcp_server_get_sock_fd(const HT_TCPServer* server);
+
 struct _HT_TCPServer
 {
     HT_Thread* accept_client_thread;
@@ -248,14 +269,19 @@ ht_tcp_server_start(HT_TCPServer* server, int port, OnClientConnected client_con
 void
 ht_tcp_server_stop(HT_TCPServer* server)
 {
-    if (!ht_tcp_server_is_running(server))
+    size_t i;
+    int prev_sock_fd;
+
+    ht_mutex_lock(server->client_mutex);
+    prev_sock_fd = server->server_sock_fd;
+    server->server_sock_fd = -1;
+    ht_mutex_unlock(server->client_mutex);
+
+    if (prev_sock_fd == -1)
     {
         return;
     }
 
-    size_t i;
-    int prev_sock_fd = server->server_sock_fd;
-    server->server_sock_fd = -1;
 #ifdef _WIN32
     closesocket(prev_sock_fd);
 #else
@@ -285,10 +311,23 @@ ht_tcp_server_stop(HT_TCPServer* server)
 #endif
 }
 
+static int
+_ht_tcp_server_get_sock_fd(const HT_TCPServer* server)
+{
+    int sock_fd;
+
+    /* it's read by the thread accepting clients */
+    ht_mutex_lock(server->client_mutex);
+    sock_fd = server->server_sock_fd;
+    ht_mutex_unlock(server->client_mutex);
+
+    return sock_fd;
+}
+
 HT_Boolean
 ht_tcp_server_is_running(const HT_TCPServer* server)
 {
-    return server->server_sock_fd != -1;
+    return _ht_tcp_server_get_sock_fd(server) != -1;
 }
 
 void
@@ -361,7 +400,8 @@ static void*
 _ht_tcp_server_run(void* user_data)
 {
     HT_TCPServer* server = (HT_TCPServer*)user_data;
-    while (ht_tcp_server_is_running(server))
+    int server_sock_fd;
+    while ((server_sock_fd = _ht_tcp_server_get_sock_fd(server)) != -1)
     {
         struct sockaddr_in clientaddr;
 #ifdef _WIN32
@@ -370,7 +410,7 @@ _ht_tcp_server_run(void* user_data)
         socklen_t client_len;
 #endif
         client_len = sizeof(clientaddr);
-        int client_fd = accept(server->server_sock_fd, (struct sockaddr *) &clientaddr, &client_len);
+        int client_fd = accept(server_sock_fd, (struct sockaddr *) &clientaddr, &client_len);
 
         if (client_fd >= 0)
         {
-- 
2.43.0


From 9640844ed1d58f2ef16400d5f6090b866b17a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:55 +0000
Subject: [PATCH 71/79] fix: Python client can be restarted and dropped by its
 callback, and used by several threads

---
 bindings/python3/client_context.cpp           | 32 ++++++++--
 bindings/python3/client_context.hpp           |  6 +-
 bindings/python3/hawktracer_client_python.cpp | 58 ++++++++++++++-----
 3 files changed, 78 insertions(+), 18 deletions(-)

diff --git a/bindings/python3/client_context.cpp b/bindings/python3/client_context.cpp
index d310a58..5c79472 100644
--- a/bindings/python3/client_context.cpp
+++ b/bindings/python3/client_context.cpp
@@ -87,33 +87,57 @@ Context::~Context()
      }
  }
 
+void Context::start()
+{
+    // it might have to wait for the server
+    Py_BEGIN_ALLOW_THREADS
+
+    _reader.start();
+
+    Py_END_ALLOW_THREADS
+}
+
 void Context::stop()
 {
+    if (is_reading_thread())
+    {
+        // called by the callback; another thread might be waiting for it
+        _reader.stop();
+        return;
+    }
+
     // the reading thread might be calling the callback
     Py_BEGIN_ALLOW_THREADS
 
-    _reader.stop();
+    {
+        std::lock_guard<std::mutex> l(_stop_mtx);
+        _reader.stop();
+    }
 
     Py_END_ALLOW_THREADS
 }
 
 PyObject* Context::poll_event()
 {
-    std::lock_guard<std::mutex> l(_events_mtx);
+    // the mutex must be released before objects are created, as that can run any Python code
+    std::unique_lock<std::mutex> l(_events_mtx);
     if (_events.empty())
     {
         Py_RETURN_NONE;
     }
 
-    parser::Event evt = _events.front();
-    PyObject* py_event = event_to_dictionary(evt);
+    parser::Event evt = std::move(_events.front());
     _events.pop();
+    l.unlock();
+
+    PyObject* py_event = event_to_dictionary(evt);
     return Py_BuildValue("NN", string_to_unicode(evt.get_klass()->get_name().c_str()), py_event);
 }
 
 void Context::_trigger_callback(const parser::Event& event)
 {
     PyGILState_STATE gstate = PyGILState_Ensure();
+    _reading_thread = std::this_thread::get_id();
     PyObject* arglist = Py_BuildValue("(NN)", string_to_unicode(event.get_klass()->get_name().c_str()), event_to_dictionary(event));
 
     PyObject* result = PyEval_CallObject(_on_new_event, arglist);
diff --git a/bindings/python3/client_context.hpp b/bindings/python3/client_context.hpp
index 51a43a7..dbb6d09 100644
--- a/bindings/python3/client_context.hpp
+++ b/bindings/python3/client_context.hpp
@@ -9,6 +9,7 @@
 
 #include <mutex>
 #include <queue>
+#include <thread>
 
 namespace HawkTracer
 {
@@ -21,8 +22,9 @@ public:
     Context(std::unique_ptr<parser::Stream> stream, PyObject* on_new_event);
     ~Context();
 
-    void start() { _reader.start(); }
+    void start();
     void stop();
+    bool is_reading_thread() const { return std::this_thread::get_id() == _reading_thread; }
     PyObject* poll_event();
     bool eos() { return _reader.eos(); }
     void wait_for_complete() { _reader.wait_for_complete(); }
@@ -31,10 +33,12 @@ private:
     void _trigger_callback(const parser::Event& event);
 
     parser::KlassRegister _klass_register;
+    std::mutex _stop_mtx;
     std::mutex _events_mtx;
     std::queue<parser::Event> _events; // events use klasses from the register
     parser::ProtocolReader _reader;
     PyObject* _on_new_event = nullptr;
+    std::thread::id _reading_thread; // the one calling the callback, protected by GIL
 };
 
 } // namespace Python
diff --git a/bindings/python3/hawktracer_client_python.cpp b/bindings/python3/hawktracer_client_python.cpp
index 96fb78f..36dbdd9 100644
--- a/bindings/python3/hawktracer_client_python.cpp
+++ b/bindings/python3/hawktracer_client_python.cpp
@@ -3,6 +3,10 @@
 #include "client_context.hpp"
 #include <hawktracer/client_utils/stream_factory.hpp>
 
+#include <memory>
+#include <new>
+#include <vector>
+
 namespace HawkTracer
 {
 namespace Python
@@ -13,9 +17,34 @@ using namespace HawkTracer;
 struct HT_Python_Client
 {
     PyObject_HEAD
-    Context* context;
+    std::shared_ptr<Context> context;
 };
 
+// A context can't be deleted by its own callback, because the thread calling it has to be joined;
+// such a context is deleted together with the next one.
+static void
+client_release_context(Context* released_context)
+{
+    static std::vector<Context*> unreleased_contexts; // protected by GIL
+
+    std::vector<Context*> contexts;
+    contexts.swap(unreleased_contexts);
+    contexts.push_back(released_context);
+
+    for (auto context : contexts)
+    {
+        if (context->is_reading_thread())
+        {
+            context->stop();
+            unreleased_contexts.push_back(context);
+        }
+        else
+        {
+            delete context;
+        }
+    }
+}
+
 static bool
 client_is_started(HT_Python_Client* self)
 {
@@ -24,7 +53,7 @@ client_is_started(HT_Python_Client* self)
         PyErr_SetString(PyExc_RuntimeError, "client is not started");
     }
 
-    return self->context != nullptr;
+    return static_cast<bool>(self->context);
 }
 
 static PyObject *
@@ -38,7 +67,7 @@ client_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     auto self = reinterpret_cast<HT_Python_Client*>(type->tp_alloc(type, 0));
     if (self)
     {
-        self->context = nullptr;
+        new(&self->context) std::shared_ptr<Context>();
     }
 
     return reinterpret_cast<PyObject*>(self);
@@ -72,13 +101,12 @@ client_start(HT_Python_Client* self, PyObject* args)
         return nullptr;
     }
 
-    if (self->context)
-    {
-        delete self->context;
-    }
+    std::shared_ptr<Context> context(new Context(std::move(stream), callback_obj), client_release_context);
+    auto previous_context = std::move(self->context);
+    previous_context.reset();
 
-    self->context = new Context(std::move(stream), callback_obj);
-    self->context->start();
+    self->context = context;
+    context->start();
     Py_RETURN_NONE;
 }
 
@@ -90,7 +118,8 @@ client_stop(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
         return nullptr;
     }
 
-    self->context->stop();
+    auto context = self->context;
+    context->stop();
     Py_RETURN_NONE;
 }
 
@@ -102,7 +131,8 @@ client_poll_event(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
         return nullptr;
     }
 
-    return self->context->poll_event();
+    auto context = self->context;
+    return context->poll_event();
 }
 
 static PyObject *
@@ -113,9 +143,11 @@ client_wait_for_eos(HT_Python_Client* self, PyObject *Py_UNUSED(ignored))
         return nullptr;
     }
 
+    auto context = self->context;
+
     Py_BEGIN_ALLOW_THREADS
 
-    self->context->wait_for_complete();
+    context->wait_for_complete();
 
     Py_END_ALLOW_THREADS
     Py_RETURN_NONE;
@@ -136,7 +168,7 @@ static void
 client_dealloc(PyObject* self)
 {
     auto client = reinterpret_cast<HT_Python_Client*>(self);
-    delete client->context;
+    client->context.~shared_ptr();
     Py_TYPE(self)->tp_free((PyObject *) self);
 }
 
-- 
2.43.0


From 956606cf4a968fdf7d926bfae4661d161824e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 72/79] fix: converter ends with an error if its output could
 not be written

---
 client/callgrind_converter.cpp    | 7 ++++++-
 client/callgrind_converter.hpp    | 2 +-
 client/chrome_trace_converter.cpp | 3 ++-
 client/chrome_trace_converter.hpp | 2 +-
 client/converter.hpp              | 2 +-
 client/main.cpp                   | 6 +++++-
 6 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/client/callgrind_converter.cpp b/client/callgrind_converter.cpp
index c7bfcbe..5875042 100644
--- a/client/callgrind_converter.cpp
+++ b/client/callgrind_converter.cpp
@@ -55,8 +55,10 @@ void CallgrindConverter::_print_function(std::ofstream& file, std::shared_ptr<Ca
     }
 }
 
-void CallgrindConverter::stop()
+bool CallgrindConverter::stop()
 {
+    bool success = true;
+
     for (auto& thread : _events)
     {
         CallGraph _call_graph;
@@ -79,7 +81,10 @@ void CallgrindConverter::stop()
             std::cerr << "Can't open file: " << thread_file_name << std::endl;
         }
         thread_output_file.close();
+        success = success && !thread_output_file.fail();
     }
+
+    return success;
 }
 
 } // namespace client
diff --git a/client/callgrind_converter.hpp b/client/callgrind_converter.hpp
index 759d83e..3c37905 100644
--- a/client/callgrind_converter.hpp
+++ b/client/callgrind_converter.hpp
@@ -20,7 +20,7 @@ public:
 
     bool init(const std::string& file_name) override;
     void process_event(const parser::Event& event) override;
-    void stop() override;
+    bool stop() override;
 
 private:
     const std::string _callgrind_header = "# callgrind format";
diff --git a/client/chrome_trace_converter.cpp b/client/chrome_trace_converter.cpp
index 3f4b2a4..87119ba 100644
--- a/client/chrome_trace_converter.cpp
+++ b/client/chrome_trace_converter.cpp
@@ -82,13 +82,14 @@ void ChromeTraceConverter::process_event(const parser::Event& event)
          << "}";
 }
 
-void ChromeTraceConverter::stop()
+bool ChromeTraceConverter::stop()
 {
     if (_file.is_open())
     {
         _file << "]}";
         _file.close();
     }
+    return !_file.fail();
 }
 
 std::string ChromeTraceConverter::_get_args(const parser::Event& event)
diff --git a/client/chrome_trace_converter.hpp b/client/chrome_trace_converter.hpp
index 4672119..7a3e6b6 100644
--- a/client/chrome_trace_converter.hpp
+++ b/client/chrome_trace_converter.hpp
@@ -19,7 +19,7 @@ public:
 
     bool init(const std::string& file_name) override;
     void process_event(const parser::Event& event) override;
-    void stop() override;
+    bool stop() override;
 
 private:
     static std::string _get_args(const parser::Event& event);
diff --git a/client/converter.hpp b/client/converter.hpp
index 3b141c3..6c2b759 100644
--- a/client/converter.hpp
+++ b/client/converter.hpp
@@ -21,7 +21,7 @@ public:
     virtual bool init(const std::string& file_name) = 0;
     virtual void process_event(const parser::Event& event) = 0;
     bool set_tracepoint_map(const std::string& map_files);
-    virtual void stop() = 0;
+    virtual bool stop() = 0; // returns false if the output could not be written completely
 
 protected:
     bool _get_label(const parser::Event& event, std::string& out_label);
diff --git a/client/main.cpp b/client/main.cpp
index 7094d3b..82a8be4 100644
--- a/client/main.cpp
+++ b/client/main.cpp
@@ -133,7 +133,11 @@ int main(int argc, char** argv)
 
     reader.wait_for_complete();
     reader.stop();
-    converter->second->stop();
+    if (!converter->second->stop())
+    {
+        std::cerr << "Can't write the output" << std::endl;
+        return 1;
+    }
 
     return 0;
 }
-- 
2.43.0


From 3c0fc6b6445569cd4e9e4ee8eaf286fd47a432db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:12 +0000
Subject: [PATCH 73/79] fix: stopping a protocol reader in a callback while
 start() is still running is a data race

---
 parser/include/hawktracer/parser/protocol_reader.hpp |  1 +
 parser/protocol_reader.cpp                           | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/include/hawktracer/parser/protocol_reader.hpp b/parser/include/hawktracer/parser/protocol_reader.hpp
index 525f136..6cbdc79 100644
--- a/parser/include/hawktracer/parser/protocol_reader.hpp
+++ b/parser/include/hawktracer/parser/protocol_reader.hpp
@@ -45,6 +45,7 @@ private:
     std::vector<OnNewEventCallback> _on_new_event_callbacks;
     std::unique_ptr<Stream> _stream;
     std::thread _thread;
+    std::mutex _mtx_thread;
     std::atomic_bool _is_running{false};
     std::condition_variable _cv;
     std::mutex _mtx_cv;
diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index 95f7271..bc2118c 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -49,6 +49,7 @@ bool ProtocolReader::start()
     if (_stream->start())
     {
         _is_running = true;
+        std::lock_guard<std::mutex> l(_mtx_thread);
         _thread = std::thread([this] { _read_events(); });
         return true;
     }
@@ -59,10 +60,13 @@ bool ProtocolReader::start()
 void ProtocolReader::stop()
 {
     _is_running = false;
-    if (_thread.get_id() == std::this_thread::get_id())
     {
-        // called by one of the callbacks, reading ends as soon as it returns
-        return;
+        std::lock_guard<std::mutex> l(_mtx_thread);
+        if (_thread.get_id() == std::this_thread::get_id())
+        {
+            // called by one of the callbacks, reading ends as soon as it returns
+            return;
+        }
     }
     if (_stream->is_continuous())
     {
-- 
2.43.0


From 45e7238fd585d2c37eb5eb2b415c1f883f83d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:21 +0000
Subject: [PATCH 74/79] fix: copies of flat events refer to freed classes once
 the class register is gone

---
 parser/event.cpp                           | 4 ++++
 parser/include/hawktracer/parser/event.hpp | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/parser/event.cpp b/parser/event.cpp
index 033f760..275e45f 100644
--- a/parser/event.cpp
+++ b/parser/event.cpp
@@ -94,6 +94,7 @@ Event& Event::operator=(Event other)
 {
     std::swap(_values, other._values);
     std::swap(_klass, other._klass);
+    std::swap(_merged_klasses, other._merged_klasses);
     std::swap(_timestamp, other._timestamp);
     return *this;
 }
@@ -108,6 +109,9 @@ Event::~Event()
 
 void Event::merge(Event event)
 {
+    // values refer to fields of their class
+    _merged_klasses.insert(_merged_klasses.end(), event._merged_klasses.begin(), event._merged_klasses.end());
+    _merged_klasses.push_back(std::move(event._klass));
     for (auto& value : event._values)
     {
         set_value(value.second.field, value.second.value);
diff --git a/parser/include/hawktracer/parser/event.hpp b/parser/include/hawktracer/parser/event.hpp
index 280b3b1..c4e84dc 100644
--- a/parser/include/hawktracer/parser/event.hpp
+++ b/parser/include/hawktracer/parser/event.hpp
@@ -5,6 +5,7 @@
 #include <hawktracer/base_types.h>
 
 #include <unordered_map>
+#include <vector>
 
 namespace HawkTracer
 {
@@ -77,6 +78,7 @@ public:
 private:
     std::unordered_map<std::string, Value> _values;
     std::shared_ptr<const EventKlass> _klass;
+    std::vector<std::shared_ptr<const EventKlass>> _merged_klasses;
     HT_TimestampNs _timestamp = (HT_TimestampNs)-1;
 };
 
-- 
2.43.0


From e952bb10b2f2239faae6835b01f4ae5939aa1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:31 +0000
Subject: [PATCH 75/79] fix: HT_EVENT_GET_KLASS() and HT_CALLSTACK_BASE_EVENT()
 cast only the first operand of their argument

---
 lib/include/hawktracer/core_events.h | 2 +-
 lib/include/hawktracer/events.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/hawktracer/core_events.h b/lib/include/hawktracer/core_events.h
index 97b1104..a3f4858 100644
--- a/lib/include/hawktracer/core_events.h
+++ b/lib/include/hawktracer/core_events.h
@@ -22,7 +22,7 @@ HT_DECLARE_EVENT_KLASS(HT_EventKlassFieldInfoEvent, HT_Event,
 HT_DECLARE_EVENT_KLASS(HT_CallstackBaseEvent, HT_Event,
                        (INTEGER, HT_DurationNs, duration),
                        (INTEGER, HT_ThreadId, thread_id))
-#define HT_CALLSTACK_BASE_EVENT(event) ((HT_CallstackBaseEvent*)event)
+#define HT_CALLSTACK_BASE_EVENT(event) ((HT_CallstackBaseEvent*)(event))
 
 typedef uint64_t HT_CallstackEventLabel;
 HT_DECLARE_EVENT_KLASS(HT_CallstackIntEvent, HT_CallstackBaseEvent,
diff --git a/lib/include/hawktracer/events.h b/lib/include/hawktracer/events.h
index edb7919..0c30783 100644
--- a/lib/include/hawktracer/events.h
+++ b/lib/include/hawktracer/events.h
@@ -32,7 +32,7 @@ struct _HT_EventKlass
 
 #define HT_REGISTER_EVENT_KLASS(EVENT_TYPE) ht_##EVENT_TYPE##_register_event_klass()
 
-#define HT_EVENT_GET_KLASS(event) (((HT_Event*)event)->klass)
+#define HT_EVENT_GET_KLASS(event) (HT_EVENT(event)->klass)
 #define HT_EVENT_KLASS_GET(EVENT_TYPE) ht_##EVENT_TYPE##_get_event_klass_instance()
 #define HT_EVENT_IS_INSTANCE_OF(event, EVENT_TYPE) \
   (HT_EVENT_GET_KLASS(event) == HT_EVENT_KLASS_GET(EVENT_TYPE))
-- 
2.43.0


From d3c2601706ac6cde22f5f460a27176cf00fa196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:39 +0000
Subject: [PATCH 76/79] fix: debug listener prints 8-bit integers as characters

---
 parser/debug_event_listener.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/debug_event_listener.cpp b/parser/debug_event_listener.cpp
index 13c9cd9..7015abc 100644
--- a/parser/debug_event_listener.cpp
+++ b/parser/debug_event_listener.cpp
@@ -14,8 +14,9 @@ static void print_field_value(const Event::Value& value)
 
     switch (value.field->get_type_id())
     {
-    PRINT_FIELD_VALUE(UINT8);
-    PRINT_FIELD_VALUE(INT8);
+    // streams print 8-bit integers as characters
+    case FieldTypeId::UINT8: std::cout << static_cast<unsigned>(value.value.f_UINT8) << std::endl; break;
+    case FieldTypeId::INT8: std::cout << static_cast<int>(value.value.f_INT8) << std::endl; break;
     PRINT_FIELD_VALUE(UINT16);
     PRINT_FIELD_VALUE(INT16);
     PRINT_FIELD_VALUE(UINT32);
-- 
2.43.0


From f293d1a6f614c027e3258af824c53994a13ea4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:20 +0000
Subject: [PATCH 77/79] fix: starting a reader again after the end of its
 stream terminates the process

---
 parser/protocol_reader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/protocol_reader.cpp b/parser/protocol_reader.cpp
index bc2118c..fd7b4f7 100644
--- a/parser/protocol_reader.cpp
+++ b/parser/protocol_reader.cpp
@@ -46,6 +46,11 @@ void ProtocolReader::register_events_listener(OnNewEventCallback callback)
 
 bool ProtocolReader::start()
 {
+    if (_thread.joinable())
+    {
+        // the stream has been read before, and might even have ended
+        stop();
+    }
     if (_stream->start())
     {
         _is_running = true;
-- 
2.43.0


From d3a22cbac2e9a5da1b6dfaf759e3994e310276b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:26 +0000
Subject: [PATCH 78/79] fix: events in the global timeline's buffer are lost at
 exit if threads are disabled

---
 lib/global_timeline.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index 0460224..ab42f2d 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -1,6 +1,8 @@
 #include "internal/global_timeline.h"
 #include "hawktracer/global_timeline.h"
 
+#include <stdlib.h>
+
 static size_t global_timeline_buffer_size = 1024;
 
 void
@@ -31,17 +33,27 @@ static HT_Timeline* _ht_global_timeline_create(size_t buffer_size)
  * we assume the HawkTracer is being used in a single-threaded
  * environment, therefore no need for per-thread timeline.
  */
-HT_Timeline* ht_global_timeline_get(void)
+static HT_Timeline* global_timeline = NULL;
+
+static void _ht_destroy_global_timeline(void)
 {
-    static HT_Timeline* timeline = NULL;
+    if (global_timeline)
+    {
+        ht_timeline_destroy(global_timeline);
+        global_timeline = NULL;
+    }
+}
 
-    if (!timeline)
+HT_Timeline* ht_global_timeline_get(void)
+{
+    if (!global_timeline)
     {
-        // TODO memory leak
-        timeline = _ht_global_timeline_create(global_timeline_buffer_size);
+        /* Other exit handlers might use the timeline after it was destroyed. They get a new one. */
+        global_timeline = _ht_global_timeline_create(global_timeline_buffer_size);
+        atexit(_ht_destroy_global_timeline);
     }
 
-    return timeline;
+    return global_timeline;
 }
 
 #else
-- 
2.43.0


From 8967171c42b36531eac99a15257488e027a76db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 79/79] fix: events in the main thread's timeline are lost at
 exit (C library), or if it's first used after thread-local objects are
 destroyed

---
 lib/global_timeline.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/global_timeline.cpp b/lib/global_timeline.cpp
index ab42f2d..2390bee 100644
--- a/lib/global_timeline.cpp
+++ b/lib/global_timeline.cpp
@@ -91,6 +91,8 @@ static void _ht_timeline_key_destroy(void* timeline)
 static void create_key(void)
 {
     pthread_key_create(&timeline_key, _ht_timeline_key_destroy);
+    /* Destructors of keys are not called for the thread which ends the process */
+    atexit(_ht_destroy_thread_timeline);
 }
 #endif
 
@@ -111,10 +113,10 @@ static void _ht_destroy_timeline_at_thread_exit(void)
     {
         static HT_THREAD_LOCAL GlobalTimelineGuard guard;
         HT_UNUSED(guard);
-        return;
     }
 #endif
 #ifdef _POSIX_VERSION
+    /* Destructors of thread-local objects might have been called already */
     pthread_once(&timeline_once_control, create_key);
     pthread_setspecific(timeline_key, thread_timeline);
 #endif
-- 
2.43.0

