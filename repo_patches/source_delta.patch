From 2335a966c06949a66cb2de4adcee1e0c226a9d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 01/32] fix: base64_encode sign-extended bytes >= 0x80 of char
 containers

---
 include/nbdl/util/base64_encode.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 3ac2568..19ac35e 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -61,9 +61,9 @@ namespace nbdl::util
       for (int i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
-            buffer[i    ] << 24
-          | buffer[i + 1] << 16
-          | buffer[i + 2] << 8
+            static_cast<unsigned char>(buffer[i    ]) << 24
+          | static_cast<unsigned char>(buffer[i + 1]) << 16
+          | static_cast<unsigned char>(buffer[i + 2]) << 8
           ;
         base64_detail::encode_fragment(output_itr, fragment, 3);
       }
@@ -71,7 +71,7 @@ namespace nbdl::util
       uint32_t extras = 0;
       for (int i = 0; i < extra_length; i++)
       {
-        extras |= buffer[round_length + i] << (8 * (3 - i));
+        extras |= static_cast<unsigned char>(buffer[round_length + i]) << (8 * (3 - i));
       }
       base64_detail::encode_fragment(output_itr, extras, extra_length);
 
-- 
2.43.0


From bbb14afe2b25f8afabe7adbd4660f92bc9a5743c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:05 +0000
Subject: [PATCH 02/32] fix: base64_decode into a buffer accepted malformed
 input that decodes to nothing

---
 include/nbdl/util/base64_decode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index 5e39a08..ebaf712 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -168,9 +168,9 @@ namespace nbdl::util
       using base64_detail::validate;
       using base64_detail::decode;
 
+      if (not validate(input)) return false;
       if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
       if (output.size() == 0) return true;
-      if (not validate(input)) return false;
 
       return decode(std::forward<Input>(input), output);
     }
-- 
2.43.0


From 89e3006ab96696a7d2d25e5f4d6005b0d3be7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 03/32] fix: get_auth_token mistook other cookies for nbdl_auth

---
 .../nbdl/websocket/detail/get_auth_token.hpp  | 31 +++++++++----------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/nbdl/websocket/detail/get_auth_token.hpp b/include/nbdl/websocket/detail/get_auth_token.hpp
index 226eb04..cb1df94 100644
--- a/include/nbdl/websocket/detail/get_auth_token.hpp
+++ b/include/nbdl/websocket/detail/get_auth_token.hpp
@@ -18,8 +18,10 @@ namespace nbdl::websocket::detail
   using std::string_view;
   using namespace std::string_view_literals;
 
+  // advances begin to the value of the auth cookie or else
+  // to the semicolon (or end) that terminates this cookie
   template <typename Iter>
-  inline Iter check_auth_cookie(Iter begin, Iter end)
+  inline bool check_auth_cookie(Iter& begin, Iter end)
   {
     constexpr string_view nbdl_auth_sv = "nbdl_auth="sv;
     constexpr long length = nbdl_auth_sv.size();
@@ -29,11 +31,13 @@ namespace nbdl::websocket::detail
       &&  std::equal(nbdl_auth_sv.begin(), nbdl_auth_sv.end(), begin)
       )
     {
-      return std::next(begin, length);
+      std::advance(begin, length);
+      return true;
     }
     else
     {
-      return std::find(begin, end, ';');
+      begin = std::find(begin, end, ';');
+      return false;
     }
   }
 
@@ -55,23 +59,16 @@ namespace nbdl::websocket::detail
 
     while (current != end)
     {
-      current = check_auth_cookie(current, cookies.end());
-      if (*current == ';')
-      {
-        if (std::distance(current, end) > 2)
-        {
-          // go past semicolon and space
-          std::advance(current, 2);
-        }
-        else
-        {
-          return auth_token_t{};
-        }
-      }
-      else
+      if (check_auth_cookie(current, end))
       {
         return take_cookie_value(current, end);
       }
+
+      // go past semicolon and space
+      current = std::find_if(current, end, [](char c)
+      {
+        return c != ';' && c != ' ' && c != '\t';
+      });
     }
 
     return auth_token_t{};
-- 
2.43.0


From f1cff61f4626a9b8ecb25f7b4a784a43c00f6cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 04/32] fix: private payload of upstream_create was the uid

---
 include/nbdl/fwd/message.hpp | 2 +-
 include/nbdl/message.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/message.hpp b/include/nbdl/fwd/message.hpp
index 14ecf3a..9c7b09d 100644
--- a/include/nbdl/fwd/message.hpp
+++ b/include/nbdl/fwd/message.hpp
@@ -140,7 +140,7 @@ namespace nbdl::message
 
   template <typename Message>
   constexpr bool has_private_payload = !std::is_same<const no_impl,
-    decltype(get_uid_impl<std::decay_t<Message>>)>::value;
+    decltype(get_private_payload_impl<std::decay_t<Message>>)>::value;
 
   template <typename Message>
   constexpr bool is_path_normalizable = !std::is_same<const no_impl,
diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index ed79f9b..0065ad6 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -97,7 +97,7 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 1);
+  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<upstream_create<T...>> = channel::upstream{};
-- 
2.43.0


From 990fe0ca07740835850886f7d2e6bef835d3da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 05/32] fix: local_version did not report changes made by a
 delta

---
 include/nbdl/local_version.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index 1e852e0..c239588 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -138,7 +138,7 @@ namespace nbdl
         // apply delta to store
         if (message::is_confirmed(m))
         {
-          apply_confirmed_delta(
+          return apply_confirmed_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
@@ -146,7 +146,7 @@ namespace nbdl
         }
         else
         {
-          apply_local_delta(
+          return apply_local_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From 276b1bcbbcefae98a159d1905381c16717f60a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 06/32] fix: map_store answered not_in_set where its own tag is
 trigger_read

---
 include/nbdl/map_store.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/map_store.hpp b/include/nbdl/map_store.hpp
index 7b28e80..379c64d 100644
--- a/include/nbdl/map_store.hpp
+++ b/include/nbdl/map_store.hpp
@@ -18,6 +18,7 @@
 
 #include <boost/hana/bool.hpp>
 #include <boost/hana/equal.hpp>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -109,6 +110,25 @@ namespace nbdl
         return true;
       }
     };
+
+    // The store's own tag stands for an absent key
+    template <typename Store, typename Key, typename Fn>
+    constexpr void match_map_store(Store&& s, Key&& k, Fn&& fn)
+    {
+      using NotInSetTag = typename std::decay_t<Store>::not_in_set_tag;
+
+      nbdl::match(s.map, std::forward<Key>(k), [&](auto&& value)
+      {
+        if constexpr(std::is_same<std::decay_t<decltype(value)>, nbdl::not_in_set>::value)
+        {
+          std::forward<Fn>(fn)(NotInSetTag{});
+        }
+        else
+        {
+          std::forward<Fn>(fn)(std::forward<decltype(value)>(value));
+        }
+      });
+    }
   }
 
   template <typename Key, typename Value, typename NotInSetTag, typename Tag>
@@ -123,6 +143,7 @@ namespace nbdl
     public:
 
     using hana_tag = Tag;
+    using not_in_set_tag = NotInSetTag;
 
     Container map;
 
@@ -177,7 +198,7 @@ namespace nbdl
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      detail::match_map_store(std::forward<Store>(s), std::forward<Key>(k), std::forward<Fn>(fn));
     }
   };
 
@@ -187,7 +208,7 @@ namespace nbdl
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      detail::match_map_store(std::forward<Store>(s), std::forward<Key>(k), std::forward<Fn>(fn));
     }
   };
 }
-- 
2.43.0


From af2ef54c5c5f0596d4f420bbd7a397d51a9e1656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 07/32] fix: a read request was marked pending before the
 context looked whether to send it

---
 include/nbdl/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index af59db8..f8689f5 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -161,7 +161,6 @@ namespace nbdl
       auto& store = stores[path_type];
       if constexpr(message::is_upstream<Message> && message::is_read<Message>)
       {
-        nbdl::apply_message(store, m);
         // send response message
         nbdl::match(store, message::get_path(m), hana::overload_linearly(
           [&](nbdl::trigger_read)
@@ -170,6 +169,7 @@ namespace nbdl
             // placeholder to prevent duplicate upstream
             // read requests and so any StateConsumer
             // gets a value
+            nbdl::apply_message(store, m);
             propagate_upstream(m);
           },
           [&](nbdl::unresolved)
-- 
2.43.0


From 4668615ef770c59963f03ea6684779bf10ac961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:01 +0000
Subject: [PATCH 08/32] fix: echo_producer gave the same key to two entities

---
 include/nbdl/echo_producer.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index e383819..b6268f0 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -19,10 +19,10 @@ namespace nbdl
 
   namespace echo_producer_detail
   {
-    template <typename Message>
-    auto make_unique_key(Message const& m)
+    // One counter per path type (messages to the same path can have many types.)
+    template <typename Path>
+    auto make_unique_key()
     {
-      using Path = typename decltype(message::get_path_type(m))::type;
       using Key = std::decay_t<decltype(hana::back(std::declval<Path>()))>;
 
       if constexpr(std::is_empty<Key>::value)
@@ -69,11 +69,13 @@ namespace nbdl
     {
       if constexpr(message::requires_key_for_downstream<Message>)
       {
+        using Path = typename decltype(message::get_path_type(m))::type;
+
         nbdl::apply_message(
           p.context
         , message::to_downstream_with_key(
             m,
-            echo_producer_detail::make_unique_key(m)
+            echo_producer_detail::make_unique_key<Path>()
           )
         );
       }
-- 
2.43.0


From 7e62d3c81ccb63fb33670b27d5f95fd8641a8d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 09/32] fix: mark the last frame of a message as final when the
 message fills it

---
 include/nbdl/websocket/detail/message_sender.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_sender.hpp b/include/nbdl/websocket/detail/message_sender.hpp
index c1a47b3..73a421f 100644
--- a/include/nbdl/websocket/detail/message_sender.hpp
+++ b/include/nbdl/websocket/detail/message_sender.hpp
@@ -138,9 +138,13 @@ namespace nbdl::websocket::detail
   void message_sender<Payload, MaxFrameSize>::
   send_message_impl(Resolver& resolver, PayloadBegin begin, PayloadEnd end)
   {
-    auto frag_end = std::next(begin, MaxFrameSize::value);
+    auto frag_end = begin;
 
-    if (frag_end > end)
+    if (static_cast<std::size_t>(std::distance(begin, end)) > max_frame_size)
+    {
+      std::advance(frag_end, max_frame_size);
+    }
+    else
     {
       frag_end = end;
       data.apply_fin_bit();
-- 
2.43.0


From 1e67bbbbab6f7fccdd1e2e3b885100a3743e75ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:05 +0000
Subject: [PATCH 10/32] fix: unmask the fragment just read, not the beginning
 of the message

---
 include/nbdl/websocket/detail/message_reader.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 03a3c3d..f9f8600 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -175,7 +175,7 @@ namespace nbdl::websocket::detail
     asio::async_read(
       frame_ctx.socket
     , asio::buffer(&payload[current_offset], length)
-    , [&resolver, &payload, &frame_ctx, length](std::error_code error_code, std::size_t)
+    , [&resolver, &payload, &frame_ctx, length, current_offset](std::error_code error_code, std::size_t)
       {
         if (error_code)
         {
@@ -187,7 +187,7 @@ namespace nbdl::websocket::detail
           {
             for (int i = 0; i < length; i++)
             {
-              payload[i] ^= frame_ctx.mask_key[i % 4];
+              payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
           }
           resolver.resolve(read_event::message);
-- 
2.43.0


From e6aa95629d5a730a04fdcc3be5ddb52da8341bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 11/32] fix: read the payload of ping and pong frames

---
 .../nbdl/websocket/detail/endpoint_impl.hpp   |  2 +-
 .../nbdl/websocket/detail/message_reader.hpp  | 38 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 822a0e0..79c73d3 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -327,7 +327,7 @@ namespace nbdl::websocket::detail
     , hana::make_pair(read_event::ping, [this](auto, auto const& frame_ctx)
       {
         (void(this));
-        pending_control_frame.to_pong(std::move(frame_ctx.payload));
+        pending_control_frame.to_pong(frame_ctx.control_payload);
       })
     , hana::make_pair(read_event::pong, [](auto&& ...) { })
     , hana::make_pair(read_event::bad_input, [this](auto&& ...)
diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index f9f8600..f5e05c7 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -59,6 +59,7 @@ namespace nbdl::websocket::detail
     std::array<unsigned char, 8> extended_length_buf;
     std::array<unsigned char, 4> mask_key;
     Payload payload;
+    Payload control_payload; // of the last ping or pong
 
     frame_context_t(tcp::socket& s)
       : socket (s)
@@ -196,6 +197,39 @@ namespace nbdl::websocket::detail
     );
   };
 
+  // The payload of a ping or pong is kept apart because
+  // these can interject the fragments of a message.
+  constexpr auto read_control_payload = [](auto& resolver, auto& frame_ctx, auto event_type)
+  {
+    const int length = get_payload_length(frame_ctx);
+
+    auto& payload = frame_ctx.control_payload;
+    payload.resize(length, 0);
+
+    asio::async_read(
+      frame_ctx.socket
+    , asio::buffer(payload)
+    , [&resolver, &payload, &frame_ctx, length, event_type](std::error_code error_code, std::size_t)
+      {
+        if (error_code)
+        {
+          resolver.reject(error_code);
+        }
+        else
+        {
+          if (has_mask_key(frame_ctx))
+          {
+            for (int i = 0; i < length; i++)
+            {
+              payload[i] ^= frame_ctx.mask_key[i % 4];
+            }
+          }
+          resolver.resolve(event_type);
+        }
+      }
+    );
+  };
+
   // control frame 'close' can have a payload of <= 127 bytes
   constexpr auto read_close_payload = [](auto& resolver, auto& frame_ctx)
   {
@@ -244,10 +278,10 @@ namespace nbdl::websocket::detail
         read_close_payload(resolver, frame_ctx);
         break;
       case 0x9: // PING
-        resolver.resolve(read_event::ping);
+        read_control_payload(resolver, frame_ctx, read_event::ping);
         break;
       case 0xA: // PONG
-        resolver.resolve(read_event::pong);
+        read_control_payload(resolver, frame_ctx, read_event::pong);
         break;
       default:
         resolver.reject(read_event::bad_input);
-- 
2.43.0


From 09047d4d0fe11ab88cd75b41b16fd03d2f991bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 12/32] fix: decode every frame length without overflow and
 reject the ones no payload can hold

---
 .../nbdl/websocket/detail/message_reader.hpp  | 58 +++++++++++++++----
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index f5e05c7..d8f7648 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -14,6 +14,7 @@
 #include <boost/asio.hpp>
 #include <boost/hana/tuple.hpp>
 #include <cstdint>
+#include <new>
 
 namespace nbdl::websocket::detail
 {
@@ -146,7 +147,7 @@ namespace nbdl::websocket::detail
       // 16 bit
       for (int i = 0; i < 2; i++)
       {
-        length |= (x.extended_length_buf[1 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[1 - i]) << (8 * i));
       }
     }
     else if(length_code == 127)
@@ -154,7 +155,7 @@ namespace nbdl::websocket::detail
       // 64 bit
       for (int i = 0; i < 8; i++)
       {
-        length |= (x.extended_length_buf[7 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[7 - i]) << (8 * i));
       }
     }
     else
@@ -164,18 +165,43 @@ namespace nbdl::websocket::detail
     return length;
   }
 
+  // Returns false if the payload is unable to hold that many bytes
+  template <typename Payload>
+  inline bool resize_payload(Payload& payload, std::size_t current, uint64_t length)
+  {
+    if (length > payload.max_size() - current)
+    {
+      return false;
+    }
+
+    try
+    {
+      payload.resize(current + length);
+    }
+    catch (std::bad_alloc const&)
+    {
+      return false;
+    }
+    return true;
+  }
+
   constexpr auto read_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
+    const uint64_t length = get_payload_length(frame_ctx);
     // we are appending a fixed length of bytes
     // to a possibly existing payload
     auto& payload = frame_ctx.payload;
     std::size_t current_offset = payload.size();
-    payload.resize(payload.size() + length);
+
+    if (not resize_payload(payload, current_offset, length))
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
 
     asio::async_read(
       frame_ctx.socket
-    , asio::buffer(&payload[current_offset], length)
+    , asio::buffer(payload.data() + current_offset, length)
     , [&resolver, &payload, &frame_ctx, length, current_offset](std::error_code error_code, std::size_t)
       {
         if (error_code)
@@ -186,7 +212,7 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (uint64_t i = 0; i < length; i++)
             {
               payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
@@ -201,10 +227,14 @@ namespace nbdl::websocket::detail
   // these can interject the fragments of a message.
   constexpr auto read_control_payload = [](auto& resolver, auto& frame_ctx, auto event_type)
   {
-    const int length = get_payload_length(frame_ctx);
+    const uint64_t length = get_payload_length(frame_ctx);
 
     auto& payload = frame_ctx.control_payload;
-    payload.resize(length, 0);
+    if (not resize_payload(payload, 0, length))
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
 
     asio::async_read(
       frame_ctx.socket
@@ -219,7 +249,7 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (uint64_t i = 0; i < length; i++)
             {
               payload[i] ^= frame_ctx.mask_key[i % 4];
             }
@@ -233,11 +263,15 @@ namespace nbdl::websocket::detail
   // control frame 'close' can have a payload of <= 127 bytes
   constexpr auto read_close_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
+    const uint64_t length = get_payload_length(frame_ctx);
 
     // destroy the existing payload
     auto& payload = frame_ctx.payload;
-    payload.resize(length, 0);
+    if (not resize_payload(payload, 0, length))
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
 
     asio::async_read(
       frame_ctx.socket
@@ -252,7 +286,7 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (uint64_t i = 0; i < length; i++)
             {
               payload[i] ^= frame_ctx.mask_key[i % 4];
             }
-- 
2.43.0


From e83a81b097a5fada739a9dda71fbcce0e600f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:21 +0000
Subject: [PATCH 13/32] fix: ignore handshake request lines that are not
 headers

---
 include/nbdl/websocket/detail/parse_handshake_request.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nbdl/websocket/detail/parse_handshake_request.hpp b/include/nbdl/websocket/detail/parse_handshake_request.hpp
index 55486fe..a5ba875 100644
--- a/include/nbdl/websocket/detail/parse_handshake_request.hpp
+++ b/include/nbdl/websocket/detail/parse_handshake_request.hpp
@@ -36,6 +36,12 @@ namespace nbdl::websocket::detail
     const auto cookie_header = "cookies"sv;
     auto token_pos = std::find(header.begin(), header.end(), ':');
 
+    if (token_pos == header.end())
+    {
+      // not a header
+      return;
+    }
+
     std::transform(header.begin(), token_pos, header.begin(), [](auto c) { return std::tolower(c); });
 
     // I'm not sure it is necessary to validate characters to see if headers are valid
-- 
2.43.0


From 20c9e73b6c1303a878dc7ac90fae4eeae630de5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 14/32] fix: keep the send queue's pipeline until the close
 frame is written

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 79c73d3..06940be 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -214,9 +214,6 @@ namespace nbdl::websocket::detail
             nbdl::promise([&](auto& resolver_)
             {
               detail::send_close(resolver_, sender);
-              // keep is_send_queue_running == true to prevent more messages
-              // after sending the close frame
-              resolver.terminate();
             })
           , [&](auto& /*sender*/)
             {
@@ -224,6 +221,9 @@ namespace nbdl::websocket::detail
               {
                 call_handler(endpoint_event::close);
               }
+              // keep is_send_queue_running == true to prevent more messages
+              // after sending the close frame
+              resolver.terminate();
             }
           , nbdl::catch_([&](std::error_code error_code)
             {
-- 
2.43.0


From 0bb6e3996ff9306200945fe469f7ed82a8b22571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:44 +0000
Subject: [PATCH 15/32] fix: report the end of a websocket connection once

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 06940be..6dd6ef8 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -105,6 +105,7 @@ namespace nbdl::websocket::detail
       , is_started(false)
       , is_stopped(false)
       , is_close_received(false)
+      , is_finished(false)
     {
       init(self(), socket, handler);
     }
@@ -141,6 +142,7 @@ namespace nbdl::websocket::detail
     bool is_started : 1;
     bool is_stopped : 1;
     bool is_close_received : 1;
+    bool is_finished : 1;
   };
 
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
@@ -263,7 +265,8 @@ namespace nbdl::websocket::detail
     , nbdl::catch_([this](boost::system::error_code error)
       {
         (void(this));
-        is_send_queue_running = false;
+        // keep is_send_queue_running == true to prevent more messages
+        // after a part of a frame
 
         if ( is_sending_close() 
          && (asio::error::eof == error || asio::error::connection_reset == error)
@@ -280,7 +283,6 @@ namespace nbdl::websocket::detail
     , nbdl::catch_([this](auto&& error)
       {
         (void(this));
-        is_send_queue_running = false;
         call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
       })
     ));
@@ -347,11 +349,17 @@ namespace nbdl::websocket::detail
   template <typename Key, typename ...Args>
   void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::call_handler(Key key, Args&& ...args)
   {
-    if (is_stopped)
+    if (is_stopped or is_finished)
     {
       return;
     }
 
+    if constexpr(not decltype(key == endpoint_event::message)::value)
+    {
+      // the end is reported only once
+      is_finished = true;
+    }
+
     handler[key](self(), std::forward<Args>(args)...);
   }
 
-- 
2.43.0


From 4114dd46ee9845d463ebf643d659a6c2f305deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:23 +0000
Subject: [PATCH 16/32] fix: send a close that was requested before
 start_messaging

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 6dd6ef8..8f57be6 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -184,7 +184,7 @@ namespace nbdl::websocket::detail
 
       reader.keep_reading(this->shared_from_this());
 
-      if (send_queue.size() > 0)
+      if (send_queue.size() > 0 or is_sending_close())
       {
         start_send_queue();
       }
-- 
2.43.0


From ac1d8f7c12c1c84ad81f82f10695ae9a29334c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:52 +0000
Subject: [PATCH 17/32] fix: call no endpoint handler after stop during the
 handshake

---
 include/nbdl/websocket/client_endpoint.hpp      | 6 +++---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 9 +++++----
 include/nbdl/websocket/server_endpoint.hpp      | 8 ++++----
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/nbdl/websocket/client_endpoint.hpp b/include/nbdl/websocket/client_endpoint.hpp
index 4b63e2c..ce235c6 100644
--- a/include/nbdl/websocket/client_endpoint.hpp
+++ b/include/nbdl/websocket/client_endpoint.hpp
@@ -46,7 +46,7 @@ namespace nbdl
       , std::forward<Handler>(handler)
       , [ origin = origin
         , auth_token = auth_token
-        ](auto& self, auto& socket, auto& handler)
+        ](auto& self, auto& socket, auto&)
         {
           nbdl::run_async(
             hana::make_tuple(
@@ -54,11 +54,11 @@ namespace nbdl
             , websocket::detail::parse_handshake_response()
             , [&](auto&&)
               {
-                handler[endpoint_event::ready](self);
+                self.call_handler(endpoint_event::ready);
               }
             , nbdl::catch_([&](auto&& error)
               {
-                handler[hana::typeid_(error)](self, std::forward<decltype(error)>(error));
+                self.call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
               })
             )
           , socket
diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 8f57be6..0a08505 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -117,15 +117,15 @@ namespace nbdl::websocket::detail
     void start_messaging();
     bool stop();
 
+    template <typename Key, typename ...Args>
+    void call_handler(Key, Args&& ...);
+
   private:
     void start_send_queue();
     bool is_sending_close();
     void mark_is_close_received();
     auto make_reader_handler(Handler&);
 
-    template <typename Key, typename ...Args>
-    void call_handler(Key, Args&& ...);
-
     tcp::socket socket;
     detail::control_frame<Payload> pending_control_frame;
     Handler handler;
@@ -354,7 +354,8 @@ namespace nbdl::websocket::detail
       return;
     }
 
-    if constexpr(not decltype(key == endpoint_event::message)::value)
+    if constexpr(not decltype(key == endpoint_event::ready)::value
+             and not decltype(key == endpoint_event::message)::value)
     {
       // the end is reported only once
       is_finished = true;
diff --git a/include/nbdl/websocket/server_endpoint.hpp b/include/nbdl/websocket/server_endpoint.hpp
index c3d234f..2483213 100644
--- a/include/nbdl/websocket/server_endpoint.hpp
+++ b/include/nbdl/websocket/server_endpoint.hpp
@@ -31,7 +31,7 @@ namespace nbdl
   {
     using tcp = asio::ip::tcp;
 
-    constexpr auto server_endpoint_init = [](auto& self, tcp::socket& socket, auto& handler)
+    constexpr auto server_endpoint_init = [](auto& self, tcp::socket& socket, auto&)
     {
       nbdl::run_async(
         hana::make_tuple(
@@ -39,15 +39,15 @@ namespace nbdl
         , websocket::detail::send_handshake_response()
         , [&](tcp::socket&, auto const& auth_token)
           {
-            handler[endpoint_event::ready](self, auth_token);
+            self.call_handler(endpoint_event::ready, auth_token);
           }
         , nbdl::catch_([&](hana::basic_type<event::bad_request_t>)
           {
-            handler[event::bad_request](self);
+            self.call_handler(event::bad_request);
           })
         , nbdl::catch_([&](auto&& error)
           {
-            handler[hana::typeid_(error)](self, std::forward<decltype(error)>(error));
+            self.call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
           })
         )
       , socket
-- 
2.43.0


From af68e39e0344d8b82f8029aa5c47b098e6ab948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 18/32] fix: read and write every integral and enum member as
 JSON

---
 include/nbdl/binder/jsoncpp.hpp | 83 ++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 33 deletions(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 3e7e577..837c126 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -21,9 +21,11 @@
 #include <nbdl/util/base64_encode.hpp>
 
 #include <json/json.h>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
+#include <type_traits>
 #include <utility>
 
 namespace nbdl { namespace binder { namespace jsoncpp
@@ -41,32 +43,34 @@ namespace nbdl { namespace binder { namespace jsoncpp
         field = obj.asBool();
       }
 
-      void bind_(Json::Value const& obj, char& field)
+      // Refuses numbers that `T` cannot represent.
+      template <typename T>
+      void bind_integral(Json::Value const& obj, T& field)
       {
-        if (!obj.isIntegral())
-          throw std::runtime_error("JSON Integral expected");
-        field = obj.asUInt();
-      }
+        using Limits = std::numeric_limits<T>;
 
-      void bind_unsigned(Json::Value const& obj, unsigned int& field)
-      {
         if (!obj.isIntegral())
           throw std::runtime_error("JSON Integral expected");
-        field = obj.asUInt();
-      }
 
-      void bind_signed(Json::Value const& obj, int& field)
-      {
-        if (!obj.isIntegral())
-          throw std::runtime_error("JSON Integral expected");
-        field = obj.asInt();
+        if constexpr(std::is_unsigned_v<T>) {
+          if (!obj.isUInt64() || obj.asUInt64() > Limits::max())
+            throw std::runtime_error("JSON Integral is out of range");
+          field = static_cast<T>(obj.asUInt64());
+        }
+        else {
+          if (!obj.isInt64() || obj.asInt64() < Limits::min() ||
+                                obj.asInt64() > Limits::max())
+            throw std::runtime_error("JSON Integral is out of range");
+          field = static_cast<T>(obj.asInt64());
+        }
       }
-      
+
       template <typename T>
-      void bind_enum(Json::Value const& obj, T& field) {
-        if (!obj.isIntegral())
-          throw std::runtime_error("JSON Integral expected");
-        field = static_cast<T>(obj.asUInt());
+      void bind_enum(Json::Value const& obj, T& field)
+      {
+        std::underlying_type_t<T> value{};
+        bind_member_value(obj, value);
+        field = static_cast<T>(value);
       }
 
       void bind_(Json::Value const& obj, double& field)
@@ -76,6 +80,20 @@ namespace nbdl { namespace binder { namespace jsoncpp
         field = obj.asDouble();
       }
 
+      template <typename T>
+      void bind_member_value(Json::Value const& obj, T& field)
+      {
+        if constexpr(std::is_enum_v<T>) {
+          bind_enum(obj, field);
+        }
+        else if constexpr(std::is_integral_v<T> && !std::is_same_v<T, bool>) {
+          bind_integral(obj, field);
+        }
+        else {
+          bind_(obj, field);
+        }
+      }
+
       Json::Value const& json_val;
 
       public:
@@ -87,19 +105,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template<typename T>
       void bind_member(T& field)
       {
-        using T_ = std::remove_reference_t<T>;
-        if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
-          bind_unsigned(json_val, field);
-        }
-        else if constexpr(std::is_integral_v<T_>) {
-          bind_signed(json_val, field);
-        }
-        else if constexpr(std::is_enum_v<T_>) {
-          bind_enum(json_val, field);
-        }
-        else {
-          bind_(json_val, std::forward<T>(field));
-        }
+        bind_member_value(json_val, field);
       }
 
       template <typename Container>
@@ -200,7 +206,18 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template<class X>
       void bind_member(X&& x)
       {
-        json_val = std::forward<X>(x);
+        using T = std::remove_cvref_t<X>;
+
+        if constexpr(std::is_enum_v<T>) {
+          bind_member(static_cast<std::underlying_type_t<T>>(x));
+        }
+        else if constexpr(std::is_integral_v<T> && !std::is_same_v<T, bool>) {
+          json_val = static_cast<std::conditional_t<std::is_unsigned_v<T>,
+              Json::LargestUInt, Json::LargestInt>>(x);
+        }
+        else {
+          json_val = std::forward<X>(x);
+        }
       }
 
       template <typename Buffer>
-- 
2.43.0


From 227b7082faa30ef593cf078cdd2f55c461656c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 19/32] fix: keep embedded null characters when reading JSON
 strings

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 837c126..e050081 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -137,7 +137,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         if (!json_val.isString())
           throw std::runtime_error("JSON String expected");
-        field = String{json_val.asCString()};
+        char const* begin = nullptr;
+        char const* end = nullptr;
+        json_val.getString(&begin, &end);
+        field = String(begin, end);
       }
 
       template<typename T>
-- 
2.43.0


From de6ba9056f4397ee940f1ffee0f4dee861b2a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 20/32] fix: write empty containers as empty JSON arrays

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index e050081..38ec79b 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -233,6 +233,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template <typename Container>
       void bind_container(Container const& c)
       {
+        json_val = Json::Value(Json::arrayValue);
         for (auto const& x : c)
         {
           Json::Value el;
-- 
2.43.0


From d3189d624bba97c6f11d0bc54eb88f87cc971ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 21/32] fix: replace the elements of a container when reading
 JSON

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 38ec79b..1ac3432 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -116,6 +116,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
 
         typename Container::value_type temp;
 
+        c.clear();
         for (Json::Value const& val : json_val)
         {
           temp = {};
-- 
2.43.0


From 15a920adfec6a493d2a85932e5f27b77426dd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 22/32] fix: refuse JSON strings that are not valid base64 for
 the buffer

---
 include/nbdl/binder/jsoncpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 1ac3432..d6db8bf 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -130,7 +130,8 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         nbdl::string temp{};
         bind_string(temp);
-        nbdl::util::base64_decode(temp, b);
+        if (!nbdl::util::base64_decode(temp, b))
+          throw std::runtime_error("JSON String is not valid base64 for the buffer");
       }
 
       template <typename String>
-- 
2.43.0


From c0f38133ac854ac6b5aa046e07de4fc5d261d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:26 +0000
Subject: [PATCH 23/32] fix: refuse unknown variant alternatives in JSON

---
 include/nbdl/binder/jsoncpp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index d6db8bf..b667409 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -305,10 +305,14 @@ namespace nbdl { namespace binder { namespace jsoncpp
           [](auto&& binder, auto&& t)
             -> decltype((binder.get_variant_type_id(), void()))
           {
+            bool is_bound = false;
             nbdl::bind_variant(binder.get_variant_type_id(), std::forward<T>(t), [&](auto&& ...x)
             {
+              is_bound = true;
               binder.bind_sequence(std::forward<decltype(x)>(x)...);
             });
+            if (!is_bound)
+              throw std::runtime_error("Variant type_id is out of range.");
           },
           [](auto&& binder, auto&& t)
           {
-- 
2.43.0


From b09d1f715eb41f3d63b2476709752c38b8f9b7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 24/32] fix: report a malformed message only once

---
 include/nbdl/app/serializer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/app/serializer.hpp b/include/nbdl/app/serializer.hpp
index ab39de3..08cb47f 100644
--- a/include/nbdl/app/serializer.hpp
+++ b/include/nbdl/app/serializer.hpp
@@ -65,6 +65,7 @@ namespace nbdl::app
           nbdl::binder::jsoncpp::from_string(msg_buf, var);
         } catch(...) {
           resolve(make_error("JSONCPP Parse Error"));
+          return;
         }
 
         nbdl::match(std::move(var), hana::overload_linearly(
-- 
2.43.0


From 42f7fbd585da9e85fca866c622e000b7074956c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:43 +0000
Subject: [PATCH 25/32] fix: apply match_when to the value at the key in
 variants

---
 include/nbdl/variant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index 1cbcc41..6071472 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -233,10 +233,10 @@ namespace nbdl {
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      detail::variant_visit_impl<hana::tag_of_t<Fn>>::apply(
-        std::forward<Store>(s)
-      , fn
-      , [&](auto&& value)
+      // The visitor applies to the value at the key
+      // and not to the alternative
+      std::forward<Store>(s).match(
+        [&](auto&& value)
         {
           if constexpr(nbdl::Store<decltype(value)>)
           {
-- 
2.43.0


From 2a8a64df80b82c0c7c0a2a46d987be3b447dac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:07 +0000
Subject: [PATCH 26/32] fix: take no branch when its path does not resolve

---
 include/nbdl/ui_helper/match_branch.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nbdl/ui_helper/match_branch.hpp b/include/nbdl/ui_helper/match_branch.hpp
index eb29930..395fec7 100644
--- a/include/nbdl/ui_helper/match_branch.hpp
+++ b/include/nbdl/ui_helper/match_branch.hpp
@@ -94,6 +94,11 @@ namespace nbdl::ui_helper
     else
     {
       std::size_t i = get_branch_index<BranchSpec>(s);
+
+      // the path might not resolve to a value
+      if (i >= mp_size<mp_third<BranchSpec>>::value)
+        return;
+
       match_branch_index<BranchSpec>(i, [&](auto index)
       {
         std::forward<Fn>(fn)(index, mp_second<mp_at<mp_third<BranchSpec>, decltype(index)>>{});
-- 
2.43.0


From 928bc3bc8e64ba5ac88c6cf1cdac285b52ba71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:03 +0000
Subject: [PATCH 27/32] fix: refuse route numbers that do not fit

---
 include/nbdl/webui/route_map.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 56f50b1..0e7fe24 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -21,6 +21,7 @@
 #include <boost/hana/unpack.hpp>
 #include <boost/hana/type.hpp>
 #include <iterator>
+#include <limits>
 #include <mpdef/pair.hpp>
 #include <string>
 #include <string_view>
@@ -61,6 +62,11 @@ namespace nbdl::webui
           // invalid character
           return 0;
         }
+        if (result > (std::numeric_limits<std::size_t>::max() - digit_value) / 10)
+        {
+          // out of range
+          return 0;
+        }
         result *= 10;
         result += digit_value;
       }
@@ -83,7 +89,13 @@ namespace nbdl::webui
     {
       bool operator()(Member& m, std::string_view param) const
       {
-        m = to_integral_param(param);
+        std::size_t value = to_integral_param(param);
+        if (value > static_cast<std::size_t>(std::numeric_limits<Member>::max()))
+        {
+          // out of range
+          return false;
+        }
+        m = static_cast<Member>(value);
         return m != 0;
       };
     };
-- 
2.43.0


From 6674d08127c52a5ea1d4c91e5c0c290f37976a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:20 +0000
Subject: [PATCH 28/32] fix: Keep the owner's key for every row of a container

---
 include/nbdl/sql_db/insert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/insert.hpp b/include/nbdl/sql_db/insert.hpp
index bd1d819..8a88c80 100644
--- a/include/nbdl/sql_db/insert.hpp
+++ b/include/nbdl/sql_db/insert.hpp
@@ -127,7 +127,7 @@ namespace nbdl::sql_db
         insert(
           db_insert
         , std::forward<decltype(x)>(x)
-        , std::forward<ForeignKeys>(keys)
+        , keys
         );
       }
     };
-- 
2.43.0


From 969fe2fcdf8e69c18e0d12b53c2d9185b1656fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:24 +0000
Subject: [PATCH 29/32] fix: Join the criteria of a WHERE clause with AND

---
 include/nbdl/sql_db/statement/select.hpp |  2 +-
 include/nbdl/sql_db/statement/update.hpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/sql_db/statement/select.hpp b/include/nbdl/sql_db/statement/select.hpp
index fb03913..2eb5ff7 100644
--- a/include/nbdl/sql_db/statement/select.hpp
+++ b/include/nbdl/sql_db/statement/select.hpp
@@ -33,7 +33,7 @@ namespace nbdl::sql_db::statement
     {
       return decltype(detail::string_sum(
         std::declval<Pair1>()
-      , detail::string_sum("=?,"_s, std::declval<PairN>())...
+      , detail::string_sum("=? AND "_s, std::declval<PairN>())...
       , "=?"_s
       )){};
     };
diff --git a/include/nbdl/sql_db/statement/update.hpp b/include/nbdl/sql_db/statement/update.hpp
index b574943..f5aa507 100644
--- a/include/nbdl/sql_db/statement/update.hpp
+++ b/include/nbdl/sql_db/statement/update.hpp
@@ -43,6 +43,16 @@ namespace nbdl::sql_db::statement
       , "\"=?"_s
       )){};
     };
+
+    template <typename Pair1, typename ...PairN>
+    constexpr auto criteria_list(hana::basic_tuple<Pair1, PairN...> const&)
+    {
+      return decltype(detail::string_sum(
+        detail::string_sum("\""_s, hana::first(std::declval<Pair1>()))
+      , detail::string_sum("\"=? AND \""_s, hana::first(std::declval<PairN>()))...
+      , "\"=?"_s
+      )){};
+    };
   }
 
   constexpr auto update = [](auto table_name, auto&& columns_, auto&& keys_)
@@ -56,7 +66,7 @@ namespace nbdl::sql_db::statement
       "UPDATE \""_s, table_name
     , "\" SET "_s
     , update_detail::column_value_list(columns)
-    , " WHERE "_s, update_detail::column_value_list(keys)
+    , " WHERE "_s, update_detail::criteria_list(keys)
     , " LIMIT 1;"_s
     );
 
-- 
2.43.0


From 235ccf4644d9cf8228668cb46eaefa31ddaac987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:37 +0000
Subject: [PATCH 30/32] fix: Select entities that have no entity of their own

---
 include/nbdl/sql_db/statement/detail/table_alias_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
index aed6360..f7b7132 100644
--- a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
+++ b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
@@ -188,7 +188,7 @@ namespace nbdl::sql_db::statement::detail
   using join_clauses = decltype(
     hana::unpack(
       mp_transform<join_clause, table_alias_list<Entity>>{}
-    , string_sum_join<hana::string<' '>>
+    , string_sum // each clause brings its own leading space and there may be none
     )
   );
 
-- 
2.43.0


From 7b11dedfcc003b258d7f64edf6df4900be7849fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:14 +0000
Subject: [PATCH 31/32] fix: find the session cookie after a cookie without '='

---
 include/nbdl/app/detail/cookie_parser.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/app/detail/cookie_parser.hpp b/include/nbdl/app/detail/cookie_parser.hpp
index fb0d5d6..53ee0f1 100644
--- a/include/nbdl/app/detail/cookie_parser.hpp
+++ b/include/nbdl/app/detail/cookie_parser.hpp
@@ -52,7 +52,6 @@ namespace nbdl::app::detail {
         return x;
       }
 
-      x = skip_past(x, '=');
       x = skip_past(x, ';');
     }
 
-- 
2.43.0


From e4a87cb38d00396fd3b3c1f442d7724d35bd4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:18 +0000
Subject: [PATCH 32/32] fix: hash a variant of any alternative

---
 include/nbdl/binder/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index c8bbd2c..ca5d0e5 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -42,9 +42,9 @@ namespace nbdl::binder
 
       template <BindableVariant T>
       void bind(T const& t) {
-        nbdl::bind_variant(t, [&](auto const& type_id, auto const& value) {
+        nbdl::bind_variant(t, [&](auto const& type_id, auto const& ...value) {
           bind(type_id);
-          bind(value); 
+          (bind(value), ...);
         });
       }
 
-- 
2.43.0

