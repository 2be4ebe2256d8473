From 3955e408c874ef69225490217521c54003daf3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 01/19] fix: decode five-byte tags (field numbers above 2^25-1)
 instead of forcing their top bits

---
 include/hpp_proto/binpb/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index b55f159..0da052d 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -592,7 +592,7 @@ struct basic_in {
     maybe_advance_region();
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -602,7 +602,7 @@ struct basic_in {
   constexpr bool match_tag(std::uint32_t tag) {
     maybe_advance_region();
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
-    if (auto p = shift_mix_parse_varint<std::uint32_t, 4>(current, res); p <= current._end) {
+    if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
       if (std::cmp_equal(res, tag)) {
         current.advance_to(p);
         return true;
-- 
2.43.0


From cb86b3e9ebfe0f150055b7083ba6368ce0cb6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 02/19] fix: retain unknown fields whose tag uses an overlong
 varint encoding byte for byte

---
 include/hpp_proto/binpb/deserialize.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 0da052d..2a01807 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -145,6 +145,7 @@ struct basic_in {
   input_buffer_region<Byte> current;
   input_span<input_buffer_region<Byte>> rest;
   ptrdiff_t size_exclude_current = 0; // the remaining size excluding those in current region without slope area
+  std::size_t last_tag_size = 0;      // the encoded size of the last tag read, may be longer than its minimal encoding
   Context &context;                   // NOLINT(cppcoreguidelines-avoid-const-or-ref-data-members)
 
   constexpr static bool endian_swapped = std::endian::little != std::endian::native;
@@ -506,10 +507,10 @@ struct basic_in {
     return {};
   }
 
-  constexpr auto unwind_tag(uint32_t tag) {
-    auto tag_len = varint_size<varint_encoding::normal>(tag);
+  // returns an archive positioned at the beginning of the last tag read
+  constexpr auto unwind_tag() {
     basic_in<byte_type, Context, contiguous> dup(*this);
-    dup.current.revert(tag_len);
+    dup.current.revert(last_tag_size);
     return dup;
   }
 
@@ -593,6 +594,7 @@ struct basic_in {
     // Safety invariant: input regions provide at least 10 readable bytes (slope/patch buffer).
     std::int64_t res; // NOLINT(cppcoreguidelines-init-variables)
     if (auto p = shift_mix_parse_varint<std::uint32_t>(current, res); p <= current._end) {
+      last_tag_size = static_cast<std::size_t>(p - current._begin);
       current.advance_to(p);
       return static_cast<std::uint32_t>(res);
     }
@@ -676,7 +678,7 @@ constexpr status skip_field(uint32_t tag, concepts::is_basic_in auto &archive, T
   if constexpr (std::is_empty_v<T>) {
     return do_skip_field(tag, archive);
   } else {
-    auto unwound_archive = archive.unwind_tag(tag);
+    auto unwound_archive = archive.unwind_tag();
     if (auto result = skip_fields_match_tag(tag, archive); !result.ok()) [[unlikely]] {
       return result;
     }
-- 
2.43.0


From 4192041a6af976dc425b5e65270272544bf34ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 03/19] fix: append_binpb writes after the existing content
 instead of over it

---
 include/hpp_proto/binpb/serialize.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index a0edc97..b564e2e 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -556,20 +556,21 @@ template <bool overwrite_buffer = true, typename T, concepts::contiguous_byte_ra
   if (msg_sz >= max_message_size) {
     return std::errc::value_too_large;
   }
+  const std::size_t write_offset = overwrite_buffer ? 0 : std::ranges::size(buffer);
   if (auto resize_status = resize_contiguous_buffer<overwrite_buffer>(buffer, static_cast<std::size_t>(msg_sz));
       !resize_status.ok()) {
     return resize_status;
   }
 
+  const auto destination = std::span{std::ranges::data(buffer), std::ranges::size(buffer)}.subspan(write_offset);
   if (std::is_constant_evaluated()) {
-    contiguous_out archive{buffer, context};
+    contiguous_out archive{destination, context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
     }
   } else {
-    contiguous_out archive{std::as_writable_bytes(std::span{std::ranges::data(buffer), std::ranges::size(buffer)}),
-                           context};
+    contiguous_out archive{std::as_writable_bytes(destination), context};
     auto cache_itr = cache.begin();
     if (!serialize(item, cache_itr, archive)) {
       return std::errc::bad_message;
-- 
2.43.0


From 0b8a7d84b0679ec6e9adc9cd48690f75a6527284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 04/19] fix: contiguous sink serialization fails instead of
 writing past a chunk smaller than the message

---
 include/hpp_proto/binpb/serialize.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index b564e2e..092450b 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -614,8 +614,11 @@ consteval serialization_mode serialization_mode_for_context() {
 
 template <typename T, concepts::out_sink Sink, concepts::is_pb_context Context>
 [[nodiscard]] constexpr status serialize_contiguous_sink(const T &item, Sink &sink, Context &context,
-                                                         std::span<uint32_t> cache) {
+                                                         std::span<uint32_t> cache, std::size_t msg_sz) {
   auto out = sink.next_chunk();
+  if (out.size() < msg_sz) [[unlikely]] {
+    return std::errc::not_enough_memory;
+  }
   contiguous_out archive{out, context};
   auto cache_itr = cache.begin();
   if (!serialize(item, cache_itr, archive)) {
@@ -653,12 +656,12 @@ status serialize(const T &item, Sink &sink, Context &context) {
     sink.set_message_size(msg_sz);
 
     if constexpr (mode == serialization_mode::contiguous) {
-      return serialize_contiguous_sink(item, sink, context, cache);
+      return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
     }
 
     if constexpr (mode == serialization_mode::adaptive) {
       if (msg_sz <= sink.chunk_size()) {
-        return serialize_contiguous_sink(item, sink, context, cache);
+        return serialize_contiguous_sink(item, sink, context, cache, msg_sz);
       }
     }
 
-- 
2.43.0


From 487076814ecbe954b3793adacf1d622026f7c0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:24 +0000
Subject: [PATCH 05/19] fix: sink serialization defaults to the documented
 adaptive mode and honours the mode of a context reference

---
 include/hpp_proto/binpb/serialize.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/binpb/serialize.hpp b/include/hpp_proto/binpb/serialize.hpp
index 092450b..3bb89c7 100644
--- a/include/hpp_proto/binpb/serialize.hpp
+++ b/include/hpp_proto/binpb/serialize.hpp
@@ -605,10 +605,11 @@ constexpr status serialize(const T &item, Buffer &buffer, [[maybe_unused]] conce
 
 template <typename Context>
 consteval serialization_mode serialization_mode_for_context() {
-  if constexpr (requires { Context::serialization_mode; }) {
-    return Context::serialization_mode;
+  using context_type = std::remove_cvref_t<Context>;
+  if constexpr (requires { context_type::serialization_mode; }) {
+    return context_type::serialization_mode;
   } else {
-    return hpp_proto::serialization_mode::contiguous;
+    return hpp_proto::serialization_mode::adaptive;
   }
 }
 
-- 
2.43.0


From 9a1b40df8474851e6255ee671b7f09953328a68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:42 +0000
Subject: [PATCH 06/19] fix: padded input rejects a string or bytes length that
 exceeds the input

---
 include/hpp_proto/binpb/deserialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 2a01807..5269c42 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -833,6 +833,9 @@ constexpr status deserialize_packed_repeated(Meta meta, auto &&item, Archive &ar
 template <typename Meta, typename Archive, typename Item>
 constexpr status deserialize_packed_repeated_padded(Meta meta, Item &item, Archive &archive, vuint32_t byte_count) {
   using type = std::remove_reference_t<Item>;
+  if (std::cmp_less(archive.in_avail(), byte_count.value)) [[unlikely]] {
+    return std::errc::bad_message;
+  }
   auto result = archive.read_bytes(byte_count, item);
   if constexpr (concepts::basic_string_view<type>) {
     return !result.ok() || utf8_validation_failed(meta, item) ? std::errc::bad_message : std::errc{};
-- 
2.43.0


From e05659ad168a906d05754680be52e4926d863c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 07/19] fix: a unary callback call whose request fails to
 serialize no longer starts the already deleted reactor

---
 include/hpp_proto/grpc/client.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index d87e0e1..105aca7 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -148,15 +148,17 @@ public:
 
   template <typename Stub, typename Traits>
     requires(rpc_type == RpcType::NORMAL_RPC)
-  void prepare(const Stub &stub, ::grpc::ClientContext &context, const Method::template request_t<Traits> &req,
+  // returns false when the request could not be serialized; OnDone() has been called in that case
+  bool prepare(const Stub &stub, ::grpc::ClientContext &context, const Method::template request_t<Traits> &req,
                hpp_proto::concepts::is_option_type auto &&...option) {
     auto result = ::hpp_proto::grpc::write_binpb(req, request_, std::forward<decltype(option)>(option)...);
     if (result.ok()) {
       ::grpc::internal::ClientCallbackUnaryFactory::Create<::grpc::ByteBuffer, ::grpc::ByteBuffer>(
           stub.channel_.get(), stub.template grpc_method<Method>(), &context, &request_, &response_, this);
-    } else {
-      this->OnDone(result);
+      return true;
     }
+    this->OnDone(result);
+    return false;
   }
 
   template <typename Stub>
@@ -298,7 +300,10 @@ void Stub<ServiceMethods>::async_call(::grpc::ClientContext &context, const Requ
 
   auto callback_reactor = std::unique_ptr<CallbackReactorType>{
       new CallbackReactorType{Method{}, std::forward<CallbackFunction>(f), response, response_option...}};
-  callback_reactor->prepare(*this, context, request);
-  callback_reactor.release()->start_call(); // gRPC callback deletes reactor in OnDone
+  const bool prepared = callback_reactor->prepare(*this, context, request);
+  auto *reactor = callback_reactor.release(); // OnDone deletes reactor, it already did so when prepare() failed
+  if (prepared) {
+    reactor->start_call();
+  }
 }
 } // namespace hpp_proto::grpc
-- 
2.43.0


From 31d3a97d86fb199c4811c5686e42df74fcb2b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 08/19] fix: server streaming and client streaming reactors
 accept serialization options

---
 include/hpp_proto/grpc/server.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index de1db72..9fa0d17 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -106,7 +106,7 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<decltype(serialization_option)>(serialization_option)...);
     this->Finish(std::move(result));
   }
 
@@ -131,7 +131,7 @@ public:
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -142,7 +142,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
@@ -154,7 +154,7 @@ public:
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWriteAndFinish(&response_, options, std::move(s));
     } else {
@@ -166,13 +166,13 @@ public:
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     this->finish(reply, ::grpc::WriteOptions{}, ::grpc::Status{},
-                 std::forward<serialization_option>(serialization_option)...);
+                 std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->finish(reply, options, ::grpc::Status{}, std::forward<serialization_option>(serialization_option)...);
+    this->finish(reply, options, ::grpc::Status{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
@@ -204,7 +204,7 @@ public:
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
     auto result =
-        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<serialization_option>(serialization_option)...);
+        ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
@@ -215,7 +215,7 @@ public:
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply,
              hpp_proto::concepts::is_option_type auto &&...serialization_option) {
-    this->write(reply, ::grpc::WriteOptions{}, std::forward<serialization_option>(serialization_option)...);
+    this->write(reply, ::grpc::WriteOptions{}, std::forward<decltype(serialization_option)>(serialization_option)...);
   }
 
   void write(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{}) {
-- 
2.43.0


From ea1eb65aaecac3b5d540d53f9e8d54a058c87076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 09/19] fix: cloning or aliasing a dynamic message preserves
 field presence and the selected oneof member

---
 .../dynamic_message/bytes_fields.hpp          |  8 +++++++-
 .../hpp_proto/dynamic_message/enum_fields.hpp |  6 +++++-
 .../dynamic_message/message_fields.hpp        | 20 ++++++++++++++++---
 .../dynamic_message/scalar_fields.hpp         | 12 ++++++++---
 .../dynamic_message/string_fields.hpp         |  8 +++++++-
 5 files changed, 45 insertions(+), 9 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index f51dae2..29da5e3 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -149,7 +149,13 @@ public:
     storage_->of_bytes.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index fcbc1e4..2d7797e 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -252,7 +252,11 @@ public:
 
   void alias_from(const cref_type &other) const noexcept {
     assert(this->descriptor_ == &other.descriptor());
-    storage_->of_int32 = other.storage_->of_int32;
+    if (other.has_value()) {
+      storage_->of_int32 = other.storage_->of_int32;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const noexcept {
diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index d2a05f5..ff2fcdf 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -55,6 +55,7 @@ class message_value_cref {
     return field_cref{desc, storage_for(desc)};
   }
   friend class repeated_field_iterator<message_value_cref>;
+  friend class message_value_mref;
   using reference = field_cref;
 
 public:
@@ -480,8 +481,17 @@ public:
 
   void clone_from(const cref_type &other) const {
     assert(this->descriptor_ == &other.descriptor());
-    for (std::size_t i = 0; i < num_slots(); ++i) {
-      fields()[i].clone_from(other.fields()[i]);
+    if (cref().storage_ == other.storage_) {
+      return;
+    }
+    reset();
+    // oneof members share a storage slot: copying an absent member would clear the selected one
+    const auto num_fields = descriptor_->fields().size();
+    for (std::size_t i = 0; i < num_fields; ++i) {
+      const auto from = other.fields()[i];
+      if (from.has_value()) {
+        fields()[i].clone_from(from);
+      }
     }
   }
 
@@ -660,7 +670,11 @@ public:
 
   void alias_from(const message_field_mref &other) const noexcept {
     assert(&message_descriptor() == &other.message_descriptor());
-    storage_->of_message = other.storage_->of_message;
+    if (other.has_value()) {
+      storage_->of_message = other.storage_->of_message;
+    } else {
+      reset();
+    }
   }
 
   void clone_from(const cref_type &other) const {
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index a6eda1c..5c679b1 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -155,8 +155,14 @@ public:
     storage.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept { set(other.value()); }
-  void clone_from(scalar_field_cref<T, Kind> other) const { set(other.value()); }
+  void alias_from(const scalar_field_cref<T, Kind> &other) const noexcept {
+    if (other.has_value()) {
+      set(other.value());
+    } else {
+      reset();
+    }
+  }
+  void clone_from(scalar_field_cref<T, Kind> other) const { alias_from(other); }
 
   [[nodiscard]] cref_type cref() const noexcept { return {*descriptor_, *storage_}; }
   // NOLINTNEXTLINE(hicpp-explicit-conversions)
@@ -166,7 +172,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return cref().default_value(); }
   [[nodiscard]] value_type value() const { return cref().value(); }
-  void reset() noexcept { access_storage().selection = 0; }
+  void reset() const noexcept { access_storage().selection = 0; }
   void set_as_default() const { set(default_value()); }
 
   value_type &emplace() const noexcept { // NOLINT(modernize-use-nodiscard)
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index 19e01e0..c81aff2 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -148,7 +148,13 @@ public:
     storage_->of_string.selection = descriptor_->resolved_info().selection_ordinal();
   }
 
-  void alias_from(const cref_type &other) const noexcept { adopt(other.value()); }
+  void alias_from(const cref_type &other) const noexcept {
+    if (other.has_value()) {
+      adopt(other.value());
+    } else {
+      reset();
+    }
+  }
 
   void clone_from(const cref_type &other) const {
     if (other.has_value()) {
-- 
2.43.0


From 398730b32aeff64621104e67c82379487e701406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 10/19] fix: an absent implicit-presence dynamic field reads as
 its default instead of the previously stored value

---
 include/hpp_proto/dynamic_message/bytes_fields.hpp  |  2 +-
 include/hpp_proto/dynamic_message/enum_fields.hpp   | 10 ++++------
 include/hpp_proto/dynamic_message/scalar_fields.hpp |  2 +-
 include/hpp_proto/dynamic_message/string_fields.hpp |  2 +-
 4 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/bytes_fields.hpp b/include/hpp_proto/dynamic_message/bytes_fields.hpp
index 29da5e3..b9dfa50 100644
--- a/include/hpp_proto/dynamic_message/bytes_fields.hpp
+++ b/include/hpp_proto/dynamic_message/bytes_fields.hpp
@@ -66,7 +66,7 @@ public:
     return {bspan.data(), bspan.size()};
   }
   [[nodiscard]] bytes_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {storage_->of_bytes.content, storage_->of_bytes.size};
diff --git a/include/hpp_proto/dynamic_message/enum_fields.hpp b/include/hpp_proto/dynamic_message/enum_fields.hpp
index 2d7797e..00b1f8e 100644
--- a/include/hpp_proto/dynamic_message/enum_fields.hpp
+++ b/include/hpp_proto/dynamic_message/enum_fields.hpp
@@ -172,7 +172,7 @@ public:
   }
 
   [[nodiscard]] enum_value value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return {enum_descriptor(), storage_->of_int32.content};
@@ -212,8 +212,7 @@ public:
   }
 
   [[nodiscard]] std::int32_t number() const {
-    const bool is_default = descriptor().resolved_info().explicit_presence() && !has_value();
-    return is_default ? descriptor_->default_value_as<int32_t>() : storage_->of_int32.content;
+    return has_value() ? storage_->of_int32.content : descriptor_->default_value_as<int32_t>();
   }
 
   /**
@@ -273,7 +272,7 @@ public:
   [[nodiscard]] enum_value default_value() const noexcept { return cref().default_value(); }
   // NOLINTNEXTLINE(bugprone-exception-escape)
   [[nodiscard]] enum_value_mref value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       storage_->of_int32.content = descriptor_->default_value_as<int32_t>();
     }
     return {*descriptor_->enum_field_type_descriptor(), storage_->of_int32.content};
@@ -288,8 +287,7 @@ public:
   }
 
   [[nodiscard]] std::int32_t number() const {
-    return descriptor().resolved_info().explicit_presence() && !has_value() ? descriptor_->default_value_as<int32_t>()
-                                                                            : storage_->of_int32.content;
+    return has_value() ? storage_->of_int32.content : descriptor_->default_value_as<int32_t>();
   }
   /**
    * @brief Returns the enum value's symbolic name (empty if schema lacks this number).
diff --git a/include/hpp_proto/dynamic_message/scalar_fields.hpp b/include/hpp_proto/dynamic_message/scalar_fields.hpp
index 5c679b1..4bc2664 100644
--- a/include/hpp_proto/dynamic_message/scalar_fields.hpp
+++ b/include/hpp_proto/dynamic_message/scalar_fields.hpp
@@ -67,7 +67,7 @@ public:
   [[nodiscard]] explicit operator bool() const noexcept { return has_value(); }
   [[nodiscard]] value_type default_value() const { return descriptor_->template default_value_as<value_type>(); }
   [[nodiscard]] value_type value() const {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return default_value();
     }
     return access_storage().content;
diff --git a/include/hpp_proto/dynamic_message/string_fields.hpp b/include/hpp_proto/dynamic_message/string_fields.hpp
index c81aff2..87066b3 100644
--- a/include/hpp_proto/dynamic_message/string_fields.hpp
+++ b/include/hpp_proto/dynamic_message/string_fields.hpp
@@ -65,7 +65,7 @@ public:
   [[nodiscard]] std::string_view default_value() const noexcept { return descriptor_->proto().default_value; }
 
   [[nodiscard]] std::string_view value() const noexcept {
-    if (descriptor().resolved_info().explicit_presence() && !has_value()) {
+    if (!has_value()) {
       return descriptor_->proto().default_value;
     }
     return {storage_->of_string.content, storage_->of_string.size};
-- 
2.43.0


From b000c2e2ad3243da09bd05ab800542031cfdf35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 11/19] fix: dynamic message serialization reports a failed
 message tag write

---
 .../dynamic_message/pb_serializer_ext.hpp     | 40 +++++--------------
 1 file changed, 9 insertions(+), 31 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
index aaff309..0286c66 100644
--- a/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
+++ b/include/hpp_proto/dynamic_message/pb_serializer_ext.hpp
@@ -614,42 +614,20 @@ struct field_serializer {
                                [&](field_cref f) { return !is_present_or_explicit_default(f) || f.visit(*this); });
   }
 
-  struct message_tag_writer {
-    field_serializer *serializer;
-    int32_t number;
-    bool is_delimited;
-    message_tag_writer(const message_tag_writer &) = delete;
-    message_tag_writer(message_tag_writer &&) = delete;
-    message_tag_writer(field_serializer *ser, const field_descriptor_t &desc)
-        : serializer(ser), number(desc.proto().number), is_delimited(desc.resolved_info().is_delimited()) {
-      if (is_delimited) {
-        serializer->archive(make_tag(number, wire_type::sgroup));
-      } else {
-        serializer->archive(make_tag(number, wire_type::length_delimited), varint{*serializer->cache_itr++});
-      }
-    };
-
-    message_tag_writer &operator=(const message_tag_writer &) = delete;
-    message_tag_writer &operator=(message_tag_writer &&) = delete;
-    ~message_tag_writer() {
-      if (is_delimited) {
-        serializer->archive(make_tag(number, wire_type::egroup));
-      }
+  bool serialize_message(const field_descriptor_t &desc, const message_value_cref &item) {
+    const int32_t number = desc.proto().number;
+    if (desc.resolved_info().is_delimited()) {
+      return archive(make_tag(number, wire_type::sgroup)) && (*this)(item) &&
+             archive(make_tag(number, wire_type::egroup));
     }
-  };
-
-  bool operator()(message_field_cref item) {
-    const field_descriptor_t &desc = item.descriptor();
-    const message_tag_writer tag_writer{this, desc};
-    return (*this)(item.value());
+    return archive(make_tag(number, wire_type::length_delimited), varint{*cache_itr++}) && (*this)(item);
   }
 
+  bool operator()(message_field_cref item) { return serialize_message(item.descriptor(), item.value()); }
+
   bool operator()(repeated_message_field_cref item) {
     const field_descriptor_t &desc = item.descriptor();
-    return std::ranges::all_of(item, [&](auto e) {
-      const message_tag_writer tag_writer{this, desc};
-      return (*this)(e);
-    });
+    return std::ranges::all_of(item, [&](auto e) { return serialize_message(desc, e); });
   }
 };
 
-- 
2.43.0


From 048c1011f5f931c334283d130f172430527c8aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 12/19] fix: emplacing a dynamic submessage marks it present
 only once its storage is allocated

---
 include/hpp_proto/dynamic_message/message_fields.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/dynamic_message/message_fields.hpp b/include/hpp_proto/dynamic_message/message_fields.hpp
index ff2fcdf..c8f4f0c 100644
--- a/include/hpp_proto/dynamic_message/message_fields.hpp
+++ b/include/hpp_proto/dynamic_message/message_fields.hpp
@@ -632,9 +632,10 @@ public:
 
   message_value_mref emplace() const { // NOLINT(modernize-use-nodiscard)
     if (!has_value()) {
-      storage_->of_message.selection = descriptor_->resolved_info().selection_ordinal();
-      storage_->of_message.content = static_cast<value_storage *>(
+      auto *content = static_cast<value_storage *>(
           memory_resource_->allocate(sizeof(value_storage) * num_slots(), alignof(value_storage)));
+      storage_->of_message.content = content;
+      storage_->of_message.selection = descriptor_->resolved_info().selection_ordinal();
     }
     auto result = message_value_mref{message_descriptor(), storage_->of_message.content, *memory_resource_};
     result.reset();
-- 
2.43.0


From 1545b15fc9ea8e7aa991775f0bc30edb4226de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:31 +0000
Subject: [PATCH 13/19] fix: streaming client reactors could not add holds
 (AddHold takes no count)

---
 include/hpp_proto/grpc/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/grpc/client.hpp b/include/hpp_proto/grpc/client.hpp
index 105aca7..b1000e9 100644
--- a/include/hpp_proto/grpc/client.hpp
+++ b/include/hpp_proto/grpc/client.hpp
@@ -234,7 +234,7 @@ public:
   void add_multiple_holds(int holds)
     requires(Method::client_streaming || Method::server_streaming)
   {
-    this->AddHold(holds);
+    this->AddMultipleHolds(holds);
   }
   void remove_hold()
     requires(Method::client_streaming || Method::server_streaming)
-- 
2.43.0


From 49d682aacdb33d113c2f175f5cf97b30fdcb38df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:41 +0000
Subject: [PATCH 14/19] fix: a streaming server call could be finished twice
 and abort the server

A cancelled bidirectional call completes its pending read and its pending
write with ok=false; both fallbacks called Finish, which gRPC answers with
an assertion failure. The same happened when a handler, or a reply that
failed to serialize, finished a call whose read or write was still pending.
Only the first finish of a streaming call now goes through.
---
 include/hpp_proto/grpc/server.hpp | 73 ++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 16 deletions(-)

diff --git a/include/hpp_proto/grpc/server.hpp b/include/hpp_proto/grpc/server.hpp
index 9fa0d17..43af98b 100644
--- a/include/hpp_proto/grpc/server.hpp
+++ b/include/hpp_proto/grpc/server.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <atomic>
+
 #include <grpcpp/grpcpp.h>
 #include <grpcpp/impl/service_type.h>
 #include <grpcpp/support/server_callback.h>
@@ -46,6 +48,15 @@ public:
   }
 };
 
+// A streaming RPC can be finished from more than one place: the handler, a failed write and the fallbacks for read and
+// write completions, which may run concurrently. gRPC allows only the first of them to go through.
+class finish_once {
+  std::atomic_flag finished_;
+
+protected:
+  [[nodiscard]] bool claim_finish() noexcept { return !finished_.test_and_set(std::memory_order_acq_rel); }
+};
+
 template <typename Method, RpcType Type = static_cast<RpcType>(Method::rpc_type)>
 class ServerRPC;
 
@@ -85,7 +96,8 @@ public:
 };
 
 template <typename Method>
-class ServerRPC<Method, RpcType::CLIENT_STREAMING> : public ::grpc::ServerReadReactor<::grpc::ByteBuffer> {
+class ServerRPC<Method, RpcType::CLIENT_STREAMING> : public ::grpc::ServerReadReactor<::grpc::ByteBuffer>,
+                                                    finish_once {
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer *resp_buf_;
@@ -100,24 +112,34 @@ public:
   void start_read() { this->StartRead(&request_); }
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
-  void finish(::grpc::Status s) { this->Finish(std::move(s)); }
+  void finish(::grpc::Status s) {
+    if (this->claim_finish()) {
+      this->Finish(std::move(s));
+    }
+  }
 
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!this->claim_finish()) {
+      return;
+    }
     auto result =
         ::hpp_proto::grpc::write_binpb(reply, *resp_buf_, std::forward<decltype(serialization_option)>(serialization_option)...);
     this->Finish(std::move(result));
   }
 
   void finish(const ::grpc::ByteBuffer &response, ::grpc::Status s = ::grpc::Status{}) {
-    *resp_buf_ = response;
-    this->Finish(std::move(s));
+    if (this->claim_finish()) {
+      *resp_buf_ = response;
+      this->Finish(std::move(s));
+    }
   }
 };
 
 template <typename Method>
-class ServerRPC<Method, RpcType::SERVER_STREAMING> : public ::grpc::ServerWriteReactor<::grpc::ByteBuffer> {
+class ServerRPC<Method, RpcType::SERVER_STREAMING> : public ::grpc::ServerWriteReactor<::grpc::ByteBuffer>,
+                                                    finish_once {
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer response_;
 
@@ -125,7 +147,11 @@ public:
   ServerRPC(::grpc::CallbackServerContext *context, ::grpc::ByteBuffer * /*byte_buffer*/) : context_(context) {}
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
-  void finish(::grpc::Status s) { this->Finish(std::move(s)); }
+  void finish(::grpc::Status s) {
+    if (this->claim_finish()) {
+      this->Finish(std::move(s));
+    }
+  }
 
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
@@ -135,7 +161,7 @@ public:
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
-      this->Finish(std::move(result));
+      this->finish(std::move(result));
     }
   }
 
@@ -153,6 +179,9 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!this->claim_finish()) {
+      return;
+    }
     auto result =
         ::hpp_proto::grpc::write_binpb(reply, response_, std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
@@ -177,14 +206,17 @@ public:
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
               ::grpc::Status s = ::grpc::Status{}) {
-    response_ = reply;
-    this->StartWriteAndFinish(&response_, options, std::move(s));
+    if (this->claim_finish()) {
+      response_ = reply;
+      this->StartWriteAndFinish(&response_, options, std::move(s));
+    }
   }
 };
 
 template <typename Method>
 class ServerRPC<Method, RpcType::BIDI_STREAMING>
-    : public ::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer> {
+    : public ::grpc::ServerBidiReactor<::grpc::ByteBuffer, ::grpc::ByteBuffer>,
+      finish_once {
   ::grpc::CallbackServerContext *context_;
   ::grpc::ByteBuffer request_;
   ::grpc::ByteBuffer response_;
@@ -198,7 +230,11 @@ public:
   void start_read() { this->StartRead(&request_); }
 
   [[nodiscard]] ::grpc::CallbackServerContext &context() const { return *context_; }
-  void finish(::grpc::Status s) { this->Finish(std::move(s)); }
+  void finish(::grpc::Status s) {
+    if (this->claim_finish()) {
+      this->Finish(std::move(s));
+    }
+  }
 
   template <typename Traits>
   void write(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options,
@@ -208,7 +244,7 @@ public:
     if (result.ok()) {
       this->StartWrite(&response_, options);
     } else {
-      this->Finish(std::move(result));
+      this->finish(std::move(result));
     }
   }
 
@@ -226,6 +262,9 @@ public:
   template <typename Traits>
   void finish(const Method::template response_t<Traits> &reply, ::grpc::WriteOptions options, ::grpc::Status s,
               hpp_proto::concepts::is_option_type auto &&...serialization_option) {
+    if (!this->claim_finish()) {
+      return;
+    }
     auto result = ::hpp_proto::grpc::write_binpb(reply, response_,
                                                  std::forward<decltype(serialization_option)>(serialization_option)...);
     if (result.ok()) {
@@ -251,8 +290,10 @@ public:
 
   void finish(const ::grpc::ByteBuffer &reply, ::grpc::WriteOptions options = ::grpc::WriteOptions{},
               ::grpc::Status s = ::grpc::Status{}) {
-    response_ = reply;
-    this->StartWriteAndFinish(&response_, options, std::move(s));
+    if (this->claim_finish()) {
+      response_ = reply;
+      this->StartWriteAndFinish(&response_, options, std::move(s));
+    }
   }
 };
 // NOLINTEND(portability-template-virtual-member-function)
@@ -276,7 +317,7 @@ protected:
         handled = handler_.on_write_error(*this);
       }
       if (!handled) {
-        this->Finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED
+        this->finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED
                                                    : ::grpc::Status{::grpc::StatusCode::UNKNOWN, "write failed"});
       }
     }
@@ -303,7 +344,7 @@ protected:
         }
       }
       if (!handled) {
-        this->Finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED : ::grpc::Status::OK);
+        this->finish(this->context().IsCancelled() ? ::grpc::Status::CANCELLED : ::grpc::Status::OK);
       }
     }
   }
-- 
2.43.0


From 995b432b848f15158025c3f7f01179f7cfd98fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 15/19] fix: a set-aside enum value in non-owning extension
 storage referred to a local array

---
 include/hpp_proto/binpb/deserialize.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index 5269c42..cf9e02d 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -663,10 +663,14 @@ constexpr void deserialize_unknown_enum(auto &unknown_fields, uint32_t field_num
   } else if constexpr (concepts::uint32_pair_contiguous_range<unknown_fields_t>) {
     auto itr = std::find_if(unknown_fields.begin(), unknown_fields.end(),
                             [field_num](const auto &e) { return e.first == field_num; });
+    using bytes_type = unknown_fields_t::value_type::second_type;
     if (itr == unknown_fields.end()) {
-      unknown_fields.push_back({field_num, field_span});
+      // a non-owning range must not refer to the local array
+      bytes_type bytes;
+      decltype(auto) v = detail::as_modifiable(archive.context, bytes);
+      util::append_range(v, field_span);
+      unknown_fields.push_back({field_num, bytes});
     } else {
-      using bytes_type = unknown_fields_t::value_type::second_type;
       decltype(auto) v = detail::as_modifiable(archive.context, const_cast<bytes_type &>(itr->second));
       util::append_range(v, field_span);
     }
-- 
2.43.0


From 4c78474f16985d1955816bdd464115d5a5583353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:20 +0000
Subject: [PATCH 16/19] fix: reading a closed enum into a oneof that holds
 another alternative threw bad_variant_access

---
 include/hpp_proto/binpb/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp_proto/binpb/deserialize.hpp b/include/hpp_proto/binpb/deserialize.hpp
index cf9e02d..f859dcf 100644
--- a/include/hpp_proto/binpb/deserialize.hpp
+++ b/include/hpp_proto/binpb/deserialize.hpp
@@ -1256,7 +1256,7 @@ constexpr status deserialize_oneof(uint32_t tag, auto &&item, concepts::is_basic
         std::variant_alternative_t<Index + 1, std::decay_t<decltype(item)>> v;
         auto result = deserialize_field(v, meta{}, tag, archive, unknown_fields);
         if (result.ok()) [[likely]] {
-          std::get<Index + 1>(item) = v;
+          item.template emplace<Index + 1>(v);
           return {};
         }
         if (result == std::errc::value_too_large) {
-- 
2.43.0


From f7f608c68e38a72288fe9ea3f224f18794d74b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:32 +0000
Subject: [PATCH 17/19] fix: swapping owners with propagating allocators moves
 the objects along

---
 include/hpp_proto/indirect.hpp          | 3 ++-
 include/hpp_proto/optional_indirect.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp_proto/indirect.hpp b/include/hpp_proto/indirect.hpp
index d91dc2f..eb5fcb9 100644
--- a/include/hpp_proto/indirect.hpp
+++ b/include/hpp_proto/indirect.hpp
@@ -186,7 +186,8 @@ public:
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
     }
-    if constexpr (allocator_traits::is_always_equal::value) {
+    if constexpr (allocator_traits::is_always_equal::value || allocator_traits::propagate_on_container_swap::value) {
+      // the objects follow their allocators
       swap(obj_, other.obj_);
     } else {
       if (alloc_ == other.alloc_) {
diff --git a/include/hpp_proto/optional_indirect.hpp b/include/hpp_proto/optional_indirect.hpp
index 4dd4496..418252c 100644
--- a/include/hpp_proto/optional_indirect.hpp
+++ b/include/hpp_proto/optional_indirect.hpp
@@ -210,7 +210,8 @@ public:
     if constexpr (allocator_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
     }
-    if constexpr (allocator_traits::is_always_equal::value) {
+    if constexpr (allocator_traits::is_always_equal::value || allocator_traits::propagate_on_container_swap::value) {
+      // the objects follow their allocators
       swap(obj_, other.obj_);
       return;
     }
-- 
2.43.0


From 4481718b856b59e714620ff051c597c55757e7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:58 +0000
Subject: [PATCH 18/19] fix: flat_map::erase copies its containers with their
 own allocators

The copies used the allocators select_on_container_copy_construction gives,
so swapping them with the originals was undefined for pmr containers.
---
 include/hpp_proto/flat_map.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index b323cc1..2e59ebb 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -851,7 +851,8 @@ public:
   iterator erase(iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -863,7 +864,8 @@ public:
   iterator erase(const_iterator position) {
     auto kit = position.private_impl_getkey();
     auto vit = position.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut = copy.keys.erase(copy.keys.begin() + (kit - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vit - c_.values.begin()));
     using std::swap;
@@ -886,7 +888,8 @@ public:
     auto vfirst = first.private_impl_getmapped();
     auto klast = last.private_impl_getkey();
     auto vlast = last.private_impl_getmapped();
-    containers copy{c_.keys, c_.values};
+    containers copy{KeyContainer(c_.keys, c_.keys.get_allocator()),
+                    MappedContainer(c_.values, c_.values.get_allocator())};
     auto kitmut =
         copy.keys.erase(copy.keys.begin() + (kfirst - c_.keys.begin()), copy.keys.begin() + (klast - c_.keys.begin()));
     auto vitmut = copy.values.erase(copy.values.begin() + (vfirst - c_.values.begin()),
-- 
2.43.0


From 4c621a581db3071d122db4ce5b8c36db27446a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:26 +0000
Subject: [PATCH 19/19] fix: flat_map assignment leaves no map with more keys
 than values

When assigning the values threw, the keys had already been replaced.
---
 include/hpp_proto/flat_map.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/hpp_proto/flat_map.hpp b/include/hpp_proto/flat_map.hpp
index 2e59ebb..a789854 100644
--- a/include/hpp_proto/flat_map.hpp
+++ b/include/hpp_proto/flat_map.hpp
@@ -381,6 +381,10 @@ public:
 
   flat_map() : flat_map(Compare()) {}
 
+  flat_map(const flat_map &) = default;
+  flat_map(flat_map &&) = default;
+  ~flat_map() = default;
+
   flat_map(KeyContainer keys, MappedContainer values)
       : c_{static_cast<KeyContainer &&>(keys), static_cast<MappedContainer &&>(values)}, compare_() {
     this->sort_and_unique_impl();
@@ -568,6 +572,33 @@ public:
 
   // ========================================================== OTHER MEMBERS
 
+  flat_map &operator=(const flat_map &other) {
+    try {
+      c_.keys = other.c_.keys;
+      c_.values = other.c_.values;
+      compare_ = other.compare_;
+    } catch (...) {
+      this->clear();
+      throw;
+    }
+    return *this;
+  }
+
+  flat_map &operator=(flat_map &&other) noexcept(std::is_nothrow_move_assignable<KeyContainer>::value &&
+                                                 std::is_nothrow_move_assignable<MappedContainer>::value &&
+                                                 std::is_nothrow_move_assignable<Compare>::value) {
+    try {
+      c_.keys = static_cast<KeyContainer &&>(other.c_.keys);
+      c_.values = static_cast<MappedContainer &&>(other.c_.values);
+      compare_ = static_cast<Compare &&>(other.compare_);
+    } catch (...) {
+      this->clear();
+      other.clear();
+      throw;
+    }
+    return *this;
+  }
+
   flat_map &operator=(std::initializer_list<value_type> il) {
     this->clear();
     this->insert(il);
-- 
2.43.0

