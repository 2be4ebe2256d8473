// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/api.proto

#pragma once

#include <hpp_proto/field_types.hpp>
#include "google/protobuf/source_context.msg.hpp"
#include "google/protobuf/type.msg.hpp"
// @@protoc_insertion_point(includes)


namespace google::protobuf {
// Generated message headers mirror protobuf schema literals and generated special members.
//NOLINTBEGIN(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)

template <typename Traits = ::hpp_proto::default_traits>
struct Method {
  using hpp_proto_traits_type = Traits;
  Traits::string_t name;
  Traits::string_t request_type_url;
  bool request_streaming = {};
  Traits::string_t response_type_url;
  bool response_streaming = {};
  Traits::template repeated_t<google::protobuf::Option<Traits>> options;
  google::protobuf::Syntax syntax = google::protobuf::Syntax::SYNTAX_PROTO2;
  Traits::string_t edition;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Method&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Mixin {
  using hpp_proto_traits_type = Traits;
  Traits::string_t name;
  Traits::string_t root;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Mixin&) const = default;
};

template <typename Traits = ::hpp_proto::default_traits>
struct Api {
  using hpp_proto_traits_type = Traits;
  Traits::string_t name;
  Traits::template repeated_t<google::protobuf::Method<Traits>> methods;
  Traits::template repeated_t<google::protobuf::Option<Traits>> options;
  Traits::string_t version;
  std::optional<google::protobuf::SourceContext<Traits>> source_context;
  Traits::template repeated_t<google::protobuf::Mixin<Traits>> mixins;
  google::protobuf::Syntax syntax = google::protobuf::Syntax::SYNTAX_PROTO2;
  Traits::string_t edition;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Api&) const = default;
};

template <typename Traits>
constexpr auto message_type_url(const Method<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Method">{}; }
template <typename Traits>
constexpr auto message_type_url(const Mixin<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Mixin">{}; }
template <typename Traits>
constexpr auto message_type_url(const Api<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Api">{}; }
// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)
} // namespace google::protobuf
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Method<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Mixin<Traits>> : std::true_type {};
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Api<Traits>> : std::true_type {};
// clang-format on
