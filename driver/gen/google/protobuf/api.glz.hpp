// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/api.proto

#pragma once

#include <hpp_proto/json.hpp>
#include "google/protobuf/source_context.glz.hpp"
#include "google/protobuf/type.glz.hpp"
#include "google/protobuf/api.msg.hpp"

template <typename Traits>
struct glz::meta<google::protobuf::Api<Traits>> {
  using T = google::protobuf::Api<Traits>;
  static constexpr auto value = object(
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "methods", ::hpp_proto::as_optional_ref<&T::methods>,
    "options", ::hpp_proto::as_optional_ref<&T::options>,
    "version", ::hpp_proto::as_optional_ref<&T::version>,
    "sourceContext", &T::source_context,
    "source_context", ::hpp_proto::as_alias<&T::source_context>,
    "mixins", ::hpp_proto::as_optional_ref<&T::mixins>,
    "syntax", ::hpp_proto::as_optional_ref<&T::syntax, google::protobuf::Syntax::SYNTAX_PROTO2>,
    "edition", ::hpp_proto::as_optional_ref<&T::edition>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Api<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<google::protobuf::Method<Traits>> {
  using T = google::protobuf::Method<Traits>;
  static constexpr auto value = object(
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "requestTypeUrl", ::hpp_proto::as_optional_ref<&T::request_type_url>,
    "request_type_url", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::request_type_url>>,
    "requestStreaming", ::hpp_proto::as_optional_ref<&T::request_streaming>,
    "request_streaming", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::request_streaming>>,
    "responseTypeUrl", ::hpp_proto::as_optional_ref<&T::response_type_url>,
    "response_type_url", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::response_type_url>>,
    "responseStreaming", ::hpp_proto::as_optional_ref<&T::response_streaming>,
    "response_streaming", ::hpp_proto::as_alias<::hpp_proto::as_optional_ref<&T::response_streaming>>,
    "options", ::hpp_proto::as_optional_ref<&T::options>,
    "syntax", ::hpp_proto::as_optional_ref<&T::syntax, google::protobuf::Syntax::SYNTAX_PROTO2>,
    "edition", ::hpp_proto::as_optional_ref<&T::edition>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Method<Traits>> : std::true_type {};
template <typename Traits>
struct glz::meta<google::protobuf::Mixin<Traits>> {
  using T = google::protobuf::Mixin<Traits>;
  static constexpr auto value = object(
    "name", ::hpp_proto::as_optional_ref<&T::name>,
    "root", ::hpp_proto::as_optional_ref<&T::root>);
};

template <typename Traits>
struct hpp_proto::has_glz<google::protobuf::Mixin<Traits>> : std::true_type {};
// clang-format on
