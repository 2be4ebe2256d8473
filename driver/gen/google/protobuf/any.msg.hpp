// clang-format off
// Generated by the protocol buffer compiler.  DO NOT EDIT!
// NO CHECKED-IN PROTOBUF GENCODE
// generation command line:
//    protoc --plugin=protoc-gen-hpp=/path/to/protoc-gen-hpp
//           --hpp_out :${out_dir}
//           google/protobuf/any.proto

#pragma once

#include <hpp_proto/field_types.hpp>
// @@protoc_insertion_point(includes)


namespace google::protobuf {
// Generated message headers mirror protobuf schema literals and generated special members.
//NOLINTBEGIN(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)

template <typename Traits = ::hpp_proto::default_traits>
struct Any {
  using hpp_proto_traits_type = Traits;
  Traits::string_t type_url;
  Traits::bytes_t value;

  [[no_unique_address]] ::hpp_proto::pb_unknown_fields<Traits> unknown_fields_;
  bool operator == (const Any&) const = default;
};

template <typename Traits>
constexpr auto message_type_url(const Any<Traits>& /*unused*/) { return ::hpp_proto::string_literal<"type.googleapis.com/google.protobuf.Any">{}; }
// NOLINTEND(performance-enum-size,misc-const-correctness,cppcoreguidelines-avoid-magic-numbers,readability-magic-numbers,bugprone-exception-escape,modernize-raw-string-literal,clang-analyzer-optin.performance.Padding)
} // namespace google::protobuf
template <typename Traits>
struct hpp_proto::is_hpp_generated<google::protobuf::Any<Traits>> : std::true_type {};
// clang-format on
